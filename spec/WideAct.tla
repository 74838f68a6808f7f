------------------------------ MODULE WideAct ------------------------------
(***************************************************************************)
(* The activation functions and their two Wirtinger derivatives with 48    *)
(* fractional bits.  Arguments are complex numbers of 24 fractional bits.  *)
(***************************************************************************)
EXTENDS ActFun, Wide

WCMul(a, b) == <<WSub(WMul(a[1], b[1]), WMul(a[2], b[2])), WAdd(WMul(a[1], b[2]), WMul(a[2], b[1]))>>
WCZero == <<WZero, WZero>>
WCOf(z) == <<WOf(z[1]), WOf(z[2])>>
WCNear(a, b, tol) == WNear(a[1], b[1], tol) /\ WNear(a[2], b[2], tol)

(* z # 0 times a power of two, so that the larger part is in [1, 2) *)
RECURSIVE WFit(_, _, _)
WFit(x, y, k) ==
  LET m == IF WLess(WAbs(x), WAbs(y)) THEN WAbs(y) ELSE WAbs(x)
  IN IF m[1] >= 2 * FB THEN WFit(WHalf(x), WHalf(y), k - 1)
     ELSE IF m[1] < FB THEN WFit(WDbl(x), WDbl(y), k + 1)
     ELSE [x |-> x, y |-> y, k |-> k]
WPolar(z) ==      \* c: cosine, s: sine, r: modulus times 2^k
  LET u == TLCEval(WFit(WOf(z[1]), WOf(z[2]), 0))
      r == TLCEval(WSqrt(WAdd(WSq(u.x), WSq(u.y))))
  IN [c |-> TLCEval(WDiv(u.x, r)), s |-> TLCEval(WDiv(u.y, r)), k |-> u.k, r |-> r]
RECURSIVE WShift(_, _)
WShift(x, k) == IF k = 0 THEN x ELSE IF k > 0 THEN WShift(WDbl(x), k - 1) ELSE WShift(WHalf(x), k + 1)
WOver(x, p) == WShift(WDiv(x, p.r), p.k)     \* x / |z|

WSigD(x) == LET s == TLCEval(WSigm(x)) IN WMul(s, WSub(WOne, s))
WTanhD(x) == WSub(WOne, WSq(WTanh(x)))

WAct(a, z) ==
  CASE a = "ModZ"       -> LET p == TLCEval(WPolar(z)) IN <<p.c, p.s>>
    [] a = "RITSigmoid" -> <<WSigm(WOf(z[1])), WSigm(WOf(z[2]))>>
    [] a = "RITTanh"    -> <<WTanh(WOf(z[1])), WTanh(WOf(z[2]))>>
    [] a = "Cardioid"   -> LET p == TLCEval(WPolar(z))  m == TLCEval(WDbl(WAdd(WOne, p.c)))
                           IN <<WMul(m, p.c), WMul(m, p.s)>>
    [] OTHER -> WCOf(FAct(a, z))
WHalfSum(x, y) == <<WHalf(WAdd(x, y)), WZero>>
WD(a, z) ==
  CASE a = "ModZ"       -> LET p == TLCEval(WPolar(z)) IN <<WOver(WHalf(WOne), p), WZero>>
    [] a = "RITSigmoid" -> WHalfSum(WSigD(WOf(z[1])), WSigD(WOf(z[2])))
    [] a = "RITTanh"    -> WHalfSum(WTanhD(WOf(z[1])), WTanhD(WOf(z[2])))
    [] a = "Cardioid"   -> LET p == TLCEval(WPolar(z)) IN <<WOver(WAdd(WOne, p.c), p), WOver(p.s, p)>>
    [] OTHER -> WCOf(FD(a, z))
WDC(a, z) ==
  CASE a = "ModZ"       -> LET p == TLCEval(WPolar(z))  u == TLCEval(WCMul(<<p.c, p.s>>, <<p.c, p.s>>))
                           IN <<WNeg(WOver(WHalf(u[1]), p)), WNeg(WOver(WHalf(u[2]), p))>>
    [] a = "RITSigmoid" -> WHalfSum(WSigD(WOf(z[1])), WNeg(WSigD(WOf(z[2]))))
    [] a = "RITTanh"    -> WHalfSum(WTanhD(WOf(z[1])), WNeg(WTanhD(WOf(z[2]))))
    [] a = "Cardioid"   -> LET p == TLCEval(WPolar(z))
                               w == TLCEval(WCMul(<<WAdd(WOne, p.c), p.s>>, TLCEval(WCMul(<<p.c, p.s>>, <<p.c, p.s>>))))
                           IN <<WNeg(WOver(w[1], p)), WNeg(WOver(w[2], p))>>
    [] OTHER -> WCOf(FDC(a, z))
=============================================================================
