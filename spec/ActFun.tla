------------------------------- MODULE ActFun -------------------------------
(***************************************************************************)
(* The activation functions and their two Wirtinger derivatives in fixed   *)
(* point.  D is d f / d z, DC is d f / d conj(z).                          *)
(***************************************************************************)
EXTENDS Fix

ActNames == {"None", "ModZ", "RITSigmoid", "RITTanh", "RITReLU", "ZReLU", "Cardioid"}
FPos(x) == IF x > 0 THEN x ELSE 0

(* cosine and sine of the phase of z # 0, and its modulus; z is scaled up   *)
(* (by a power of two) first so that small numbers keep their precision     *)
RECURSIVE Up(_, _)
Up(z, k) == IF FAbs(z[1]) < 2 * FB /\ FAbs(z[2]) < 2 * FB THEN Up(<<2 * z[1], 2 * z[2]>>, k + 1) ELSE <<z, k>>
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
(* |z| < 4 on entry to the arithmetic: larger numbers are scaled down *)
RECURSIVE Down(_, _)
Down(z, k) == IF FAbs(z[1]) >= 4 * FB \/ FAbs(z[2]) >= 4 * FB
              THEN Down(<<z[1] \div 2, z[2] \div 2>>, k - 1) ELSE <<z, k>>
Polar(z) ==       \* [c |-> cos, s |-> sin, k |-> scaling exponent, r |-> modulus * 2^k]
  LET u == IF FAbs(z[1]) >= 4 * FB \/ FAbs(z[2]) >= 4 * FB THEN Down(z, 0) ELSE Up(z, 0)
      r == FCNorm(u[1])
  IN [c |-> FDiv(u[1][1], r), s |-> FDiv(u[1][2], r), k |-> u[2], r |-> r]
(* x / |z| *)
OverNorm(x, p) ==
  LET y == FDiv(x, p.r)
  IN IF p.k >= 0 THEN y * Pow2(p.k) ELSE y \div Pow2(-p.k)

SigD(x) == LET s == FSigm(x) IN FMul(s, FB - s)
TanhD(x) == LET t == FTanh(x) IN FB - FSq(t)
StepD(x) == IF x > 0 THEN FB ELSE 0

FAct(a, z) ==
  CASE a = "None"       -> z
    [] a = "ModZ"       -> LET p == Polar(z) IN <<p.c, p.s>>
    [] a = "RITSigmoid" -> <<FSigm(z[1]), FSigm(z[2])>>
    [] a = "RITTanh"    -> <<FTanh(z[1]), FTanh(z[2])>>
    [] a = "RITReLU"    -> <<FPos(z[1]), FPos(z[2])>>
    [] a = "ZReLU"      -> IF z[1] >= 0 /\ z[2] >= 0 THEN z ELSE FCZero
    [] a = "Cardioid"   -> IF z = FCZero THEN <<4 * FB, 0>>
                           ELSE LET p == Polar(z)  m == 2 * (FB + p.c)
                                IN <<FMul(m, p.c), FMul(m, p.s)>>

HalfSum(x, y) == <<(x + y) \div 2, 0>>
(* f = 2(1 + cos t) e^{it}: with u = e^{it}, f = 2u + u^2 + 1 and           *)
(* du/dz = 1/(2|z|), du/dzbar = -u^2/(2|z|), so f_z = (1 + u)/|z| and       *)
(* f_zbar = -(1 + u) u^2 / |z|                                              *)
FD(a, z) ==
  CASE a = "None"       -> FCOne
    [] a = "ModZ"       -> LET p == Polar(z) IN <<OverNorm(FB \div 2, p), 0>>
    [] a = "RITSigmoid" -> HalfSum(SigD(z[1]), SigD(z[2]))
    [] a = "RITTanh"    -> HalfSum(TanhD(z[1]), TanhD(z[2]))
    [] a = "RITReLU"    -> HalfSum(StepD(z[1]), StepD(z[2]))
    [] a = "ZReLU"      -> IF z[1] > 0 /\ z[2] > 0 THEN FCOne ELSE FCZero
    [] a = "Cardioid"   -> LET p == Polar(z)
                           IN <<OverNorm(FB + p.c, p), OverNorm(p.s, p)>>
FDC(a, z) ==
  CASE a = "None"       -> FCZero
    [] a = "ModZ"       -> LET p == Polar(z)  u2 == FCMul(<<p.c, p.s>>, <<p.c, p.s>>)
                           IN <<-OverNorm(u2[1] \div 2, p), -OverNorm(u2[2] \div 2, p)>>
    [] a = "RITSigmoid" -> HalfSum(SigD(z[1]), -SigD(z[2]))
    [] a = "RITTanh"    -> HalfSum(TanhD(z[1]), -TanhD(z[2]))
    [] a = "RITReLU"    -> HalfSum(StepD(z[1]), -StepD(z[2]))
    [] a = "ZReLU"      -> FCZero
    [] a = "Cardioid"   -> LET p == Polar(z)
                               w == FCMul(<<FB + p.c, p.s>>, FCMul(<<p.c, p.s>>, <<p.c, p.s>>))
                           IN <<-OverNorm(w[1], p), -OverNorm(w[2], p)>>

(* derivative of a real loss w.r.t. q, given the derivative g w.r.t. f(q) *)
FBack(a, q, g) == FCAdd(FCMul(FD(a, q), g), FCMul(FCConj(FDC(a, q)), FCConj(g)))

(* points where the function is not smooth *)
FKink(a, z) ==
  CASE a \in {"RITReLU", "ZReLU"} -> z[1] = 0 \/ z[2] = 0
    [] a \in {"ModZ", "Cardioid"} -> z = FCZero
    [] OTHER -> FALSE
=============================================================================
