------------------------------ MODULE TR_Arith ------------------------------
(***************************************************************************)
(* Complex arithmetic, modulus, phase, conjugate, polar form and ordering. *)
(***************************************************************************)
EXTENDS Quot, Wide, Events

(*------------------------------ arithmetic -------------------------------*)
All3(f, P(_)) == \A k \in 1..3 : P(f[k])

RECURSIVE Exp2(_)
Exp2(n) == IF n = 0 THEN 1 ELSE 2 * Exp2(n - 1)
(* n / 2^k below one in modulus *)
WInt(n, k) ==
  IF k <= 24 THEN <<n * Exp2(24 - k), 0>>
  ELSE <<n \div Exp2(k - 24), (n % Exp2(k - 24)) * Exp2(48 - k)>>
(* closeness at the precision of the number type: f32 in 2^-24, f64 in 2^-48 *)
WClose(p, a, b, t32, t64) ==
  IF p = "f64" THEN WNear(a, b, t64)
  ELSE WSane(a) /\ LET d == WAbs(WSub(a, b)) IN d[1] <= t32

PairOk(e) ==
  LET a == e.a  b == e.b
  IN CASE ~All3(e.add, LAMBDA r : Is(r, GAdd(a, b))) -> "sum"
       [] ~All3(e.sub, LAMBDA r : Is(r, GSub(a, b))) -> "difference"
       [] ~All3(e.mul, LAMBDA r : Is(r, GMul(a, b))) -> "product"
       [] b = GZero /\ ~(All3(e.div, Panicked) /\ All3(e.quo, Panicked)) -> "division by zero"
       [] b # GZero /\ ~All3(e.quo, LAMBDA r : Ok(r) /\ \A k \in 1..2 : WClose(e.p, r.v[k], WInt(a[k], e.s), 24, 4))
          -> "quotient of a multiple"
       [] b # GZero /\ ~All3(e.div, LAMBDA r : Ok(r) /\ QuotOk(r.v, a, b)) -> "quotient"
       [] OTHER -> "ok"

ConstsOk(e) ==
  CASE ~Is(e.zero, GZero) -> "zero"
    [] ~Is(e.one, GOne) -> "one"
    [] ~Is(e.im, GI) -> "imaginary unit"
    [] ~Is(e.num, <<e.n, 0>>) -> "whole number"
    [] ~Is(e.new, e.z) \/ ~Is(e.re, e.z[1]) \/ ~Is(e.imp, e.z[2]) -> "parts"
    [] ~Is(e.runit, 1) \/ ~Is(e.rnum, e.n) -> "real constants"
    [] OTHER -> "ok"

(*--------------------- modulus, phase, polar, ordering -------------------*)
(* moduli are recorded divided by 2^s, s chosen so that they lie in [1/2, 1) *)
OneOk(e) ==
  LET a == e.a  n2 == GNormSq(a)
      re == WInt(a[1], e.s)  im == WInt(a[2], e.s)
      ph == e.ph.v
      sc == TLCEval(WSinCos(ph))
      \* sin(ph) * re - cos(ph) * im = 0 and cos(ph) * re + sin(ph) * im > 0
      cross == WSub(WMul(sc[1], re), WMul(sc[2], im))
      dot == WAdd(WMul(sc[2], re), WMul(sc[1], im))
  IN CASE ~Is(e.nsq, n2) -> "squared modulus"
       [] ~Ok(e.norm) \/ ~(WSane(e.norm.v) /\ ~WIsNeg(e.norm.v)
                           /\ WClose(e.p, WSq(e.norm.v), WInt(n2, 2 * e.s), 8, 10)) -> "modulus"
       [] ~Is(e.conj, GConj(a)) -> "conjugate"
       [] ~Ok(e.ph) \/ ~(WSane(ph) /\ Abs(ph[1]) <= PI + 4) -> "phase range"
       [] a # GZero /\ ~(WClose(e.p, cross, WZero, 12, 60) /\ dot[1] > 0) -> "phase"
       [] ~Ok(e.round) \/ ~(\A k \in 1..2 : WClose(e.p, e.round.v[k], WInt(a[k], e.s), 24, 24)) -> "polar round trip"
       [] OTHER -> "ok"

CmpOk(e) ==
  LET x == GNormSq(e.a)  y == GNormSq(e.b)
  IN CASE ~Is(e.lt, x < y) \/ ~Is(e.le, x <= y) \/ ~Is(e.gt, x > y) \/ ~Is(e.ge, x >= y) -> "comparison"
       [] ~Is(e.pc, IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0) -> "three-way comparison"
       [] ~Is(e.eq, e.a = e.b) -> "equality"
       [] OTHER -> "ok"

(* recorded divided by 16 *)
PolOk(e) ==
  LET sc == TLCEval(WSinCos(WOf(e.p64 * (FB \div 64))))
      part(x) == WMul(WOf(e.a * (FB \div 16)), x)
  IN IF Ok(e.r) /\ WClose(e.p, e.r.v[1], part(sc[2]), 12, 60) /\ WClose(e.p, e.r.v[2], part(sc[1]), 12, 60)
     THEN "ok" ELSE "polar form"

WholeOk(e) == IF Is(e.num, <<e.n, 0>>) /\ Is(e.rnum, e.n) THEN "ok" ELSE "whole number"

Verdict(e) ==
  CASE e.ev = "pair"   -> PairOk(e)
    [] e.ev = "consts" -> ConstsOk(e)
    [] e.ev = "whole"  -> WholeOk(e)
    [] e.ev = "one"    -> OneOk(e)
    [] e.ev = "cmp"    -> CmpOk(e)
    [] e.ev = "pol"    -> PolOk(e)

VARIABLES l, v
Init == l \in 1..NEvents /\ v = "todo"
Next == v = "todo" /\ v' = Verdict(Trace[l]) /\ l' = l
Accepted == v \in {"todo", "ok", "known"}
=============================================================================
