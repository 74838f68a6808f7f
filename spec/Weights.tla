------------------------------ MODULE Weights ------------------------------
(***************************************************************************)
(* The initialisation methods: numbers drawn from a generator state.       *)
(* Numbers are fixed point and scaled up by 2^k, where the number of units *)
(* is n * 4^k (so that small standard deviations keep their precision).    *)
(***************************************************************************)
EXTENDS Rng, Fix, Wide

(* s / 2^31 as fixed point *)
U(s) == s \div 128 + (IF s % 128 >= 64 THEN 1 ELSE 0)
(* angle 2 pi u *)
Dir(s) == LET sc == FSinCos(FMul(TWOPI, U(s))) IN <<sc[2], sc[1]>>

Draws(m) == IF m \in {"HeInit", "XavierGlorotN"} THEN 3 ELSE 2
Ahead(s, n) == CASE n = 0 -> s [] n = 1 -> Draw(s) [] n = 2 -> Draw(Draw(s)) [] n = 3 -> Draw(Draw(Draw(s))) [] OTHER -> Jump(s, n)

(* largest modulus (uniform methods) or standard deviation (normal ones), *)
(* for the uniform method relative to the scale                           *)
Spread(m, n) ==
  CASE m = "Uniform" -> FB
    [] m = "Xavier" -> FSqrt(FRat(12, n))
    [] m = "XavierGlorotU" -> FSqrt(FRat(6, n))
    [] m \in {"HeInit", "XavierGlorotN"} -> FSqrt(FRat(2, n))

(* logarithm of s / 2^31, s >= 1 *)
LnU(s) == LET a == IF s < 33554432 THEN FLnInt(s) ELSE FLnInt(s \div 64) + 6 * LN2
          IN a - 31 * LN2
(* the formula is well conditioned in single precision *)
Tight(m, s) == Draws(m) = 2 \/ LET a == Draw(s) IN a # 0 /\ a < 2145386495

(* the radius from one uniform draw: one-sided in single, two-sided in     *)
(* double precision                                                        *)
Radius(m, p, n, s) ==
  LET a == Draw(s)  w == Spread(m, n)
  IN IF Draws(m) = 2 THEN FMul(w, IF p = "f32" THEN U(a) ELSE 2 * U(a) - FB)
     ELSE FMul(FMul(FSqrt(-2 * LnU(a)), Dir(Draw(a))[1]), w)

Weight(m, p, n, s) == FCScale(Radius(m, p, n, s), Dir(Ahead(s, Draws(m))))

(* the double-precision formulas with 48 fractional bits *)
WU(s) == <<s \div 128, (s % 128) * 131072>>                 \* s / 2^31, exact
WDir(s) == LET sc == WSinCos(WMul(WScale(4, WHPI), WU(s))) IN <<sc[2], sc[1]>>
WSpread(m, n) ==
  CASE m = "Uniform" -> WOne
    [] m = "Xavier" -> WDbl(WSqrt(WDivInt(WOf(3 * FB), n)))
    [] m = "XavierGlorotU" -> WSqrt(WDivInt(WOf(6 * FB), n))
    [] m \in {"HeInit", "XavierGlorotN"} -> WSqrt(WDivInt(WOf(2 * FB), n))
RECURSIVE WRoot(_)
WRoot(a) == IF a[1] >= 4 * FB THEN WDbl(WRoot(WHalf(WHalf(a)))) ELSE WSqrt(a)
WRadius(m, n, s) ==
  LET a == Draw(s)  w == TLCEval(WSpread(m, n))
  IN IF Draws(m) = 2 THEN WMul(w, WSub(WDbl(WU(a)), WOne))
     ELSE WMul(WMul(WRoot(TLCEval(WNeg(WDbl(WLn(WU(a)))))), WDir(Draw(a))[1]), w)
WWeight(m, n, s) ==
  LET r == TLCEval(WRadius(m, n, s))  d == TLCEval(WDir(Ahead(s, Draws(m))))
  IN <<WMul(r, d[1]), WMul(r, d[2])>>
=============================================================================
