------------------------------- MODULE MC_Wide -------------------------------
(***************************************************************************)
(* The 48-bit functions satisfy the identities that define them and agree  *)
(* with the 24-bit ones, over a grid of arguments with uneven low bits.    *)
(***************************************************************************)
EXTENDS Wide, TLC
CONSTANTS N
VARIABLES i, x, phase
Init == i \in 1..(N - 1) /\ x = <<i * (FB \div N) + ((i * 7919) % 100), (i * 104729) % FB>> /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ UNCHANGED <<i, x>>

Cl(u, w, t) == WNear(u, w, t)
Y == WSub(WOne, x)
X3 == WAdd(x, <<3 * FB, 0>>)
Products == phase = 1 =>
  /\ Cl(WMul(WDiv(WOne, X3), X3), WOne, 8) /\ Cl(WDiv(WMul(x, X3), X3), x, 4)
  /\ WMul(x, WNeg(WOne)) = WNeg(x) /\ WMul(x, WOne) = x /\ WScale(5, x) = WSub(WScale(7, x), WDbl(x))
  /\ Cl(WSq(WAdd(x, WOne)), WAdd(WSq(x), WAdd(WDbl(x), WOne)), 3)
  /\ Cl(WDivInt(WScale(7, X3), 7), X3, 1) /\ Cl(WDbl(WHalf(x)), x, 1)
  /\ WAdd(WNeg(x), x) = WZero /\ WNeg(WNeg(x)) = x
  /\ Near(WMul(x, X3)[1], FMul(x[1], X3[1]), 6)
Roots == phase = 1 => Cl(WSq(WSqrt(X3)), X3, 16) /\ Cl(WSq(WSqrt(Y)), Y, 16)
Exponentials == phase = 1 =>
  /\ Cl(WMul(WExpNeg(x), WExpNeg(Y)), WEInv, 24)
  /\ Cl(WExpNeg(X3), WMul(WExpNeg(x), WExpNeg(<<3 * FB, 0>>)), 12)
  /\ Near(WExpNeg(X3)[1], FExpNeg(X3[1]), 8)
  /\ Cl(WMul(WExpNeg(WHalf(x)), WExpNeg(WHalf(x))), WExpNeg(x), 24)
Angles == phase = 1 =>
  LET p == WSinCos(x)  q == WSinCos(Y)  h == WSinCos(WAdd(x, WDbl(WHPI)))
      m == WSinCos(WNeg(x))  u == WSinCos(WOne)  d == WSinCos(WDbl(x))  f == FSinCos(x[1])
  IN /\ Cl(WAdd(WSq(p[1]), WSq(p[2])), WOne, 40)
     /\ Cl(WAdd(WMul(p[1], q[2]), WMul(p[2], q[1])), u[1], 60)
     /\ Cl(WSub(WMul(p[2], q[2]), WMul(p[1], q[1])), u[2], 60)
     /\ Cl(d[1], WDbl(WMul(p[1], p[2])), 60)
     /\ Cl(h[1], WNeg(p[1]), 30) /\ Cl(h[2], WNeg(p[2]), 30) /\ Cl(m[1], WNeg(p[1]), 30) /\ Cl(m[2], p[2], 30)
     /\ Near(p[1][1], f[1], 6) /\ Near(p[2][1], f[2], 6)
Squashing == phase = 1 =>
  /\ Cl(WTanh(x), WSub(WDbl(WSigm(WDbl(x))), WOne), 24)
  /\ Cl(WAdd(WSigm(X3), WSigm(WNeg(X3))), WOne, 2)
  /\ Near(WTanh(X3)[1], FTanh(X3[1]), 8) /\ Near(WSigm(x)[1], FSigm(x[1]), 8)
Logarithms == phase = 1 =>
  /\ Cl(WLn(WMul(X3, WAdd(x, WOne))), WAdd(WLn(X3), WLn(WAdd(x, WOne))), 40)
  /\ Cl(WExpNeg(WLn(X3)), WDiv(WOne, X3), 40) /\ Cl(WLn(WExpNeg(x)), WNeg(x), 60)
Constants == Cl(WLn(WEInv), WNeg(WOne), 40) /\ WLn(WOf(2 * FB)) = WLN2 /\ Cl(WEInv, WSq(WExpFrac(WHalf(WOne))), 8) /\ WSinCos(WHPI)[1] = WOne
=============================================================================
