------------------------------- MODULE MC_Fix -------------------------------
(***************************************************************************)
(* The fixed-point functions satisfy the identities that define them, over *)
(* a grid of arguments with random-looking low bits.                       *)
(***************************************************************************)
EXTENDS Fix, TLC
CONSTANTS N           \* number of grid points
VARIABLES i, x, phase
(* x runs over (0, 1) with a step that is not a power of two *)
Init == i \in 1..(N - 1) /\ x = i * (FB \div N) + ((i * 7919) % 100) /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ UNCHANGED <<i, x>>

Cl(u, w, t) == Near(u, w, t)
Y == FB - x
Products == phase = 1 =>
  /\ Cl(FMul(x, FDiv(FB, x + FB)) + FMul(FB, FDiv(FB, x + FB)), FB, 8)      \* (x + 1) / (x + 1)
  /\ FMul(x, FInt(-3)) = -FMul(FInt(3), x) /\ FMul(x, FB) = x
  /\ Cl(FMul(x + FB, x + FB), FMul(x, x) + 2 * x + FB, 3)
Roots == phase = 1 =>
  /\ Cl(FSq(FSqrt(x)), x, 4) /\ Cl(FSq(FSqrt(x + FInt(20))), x + FInt(20), 20)
  /\ Cl(FSq(FDiv(FSqrt(x), FInt(1))), x, 4)
Exponentials == phase = 1 =>
  /\ Cl(FMul(FExpNeg(x), FExpNeg(Y)), EInv, 8)                              \* e^-x e^-(1-x) = e^-1
  /\ Cl(FMul(FExp(x), FExpNeg(x)), FB, 12)
  /\ Cl(FExpNeg(x + FInt(3)), FMul(FExpNeg(x), FExpNeg(FInt(3))), 6)
  /\ Cl(FExpNeg(x) - FExpNeg(x + FB \div 64), FMul(FExpNeg(x + FB \div 128), FB \div 64), 40)  \* e' = -e
Logarithms == phase = 1 =>
  /\ Cl(FLn(FExpNeg(x)), -x, 40)
  /\ Cl(FLn(x + FB) + FLn(x + 3 * FB), FLn(FMul(x + FB, x + 3 * FB)), 30)
  /\ Cl(FLnInt(i * 6), FLnInt(i) + FLnInt(6), 30)
Angles == phase = 1 =>
  LET p == FSinCos(x)  q == FSinCos(Y)  r == FSinCos(x + TWOPI)  h == FSinCos(x + PI)
      m == FSinCos(-x)  u == FSinCos(FB)  d == FSinCos(2 * x)
  IN /\ Cl(FSq(p[1]) + FSq(p[2]), FB, 16)
     /\ Cl(FMul(p[1], q[2]) + FMul(p[2], q[1]), u[1], 24)                   \* addition theorem
     /\ Cl(FMul(p[2], q[2]) - FMul(p[1], q[1]), u[2], 24)
     /\ Cl(d[1], 2 * FMul(p[1], p[2]), 24)
     /\ Cl(r[1], p[1], 12) /\ Cl(r[2], p[2], 12) /\ Cl(h[1], -p[1], 12) /\ Cl(h[2], -p[2], 12)
     /\ Cl(m[1], -p[1], 8) /\ Cl(m[2], p[2], 8)
     /\ p[1] > 0 /\ p[1] <= x + 4 /\ Cl(FSin(FB \div 256), FB \div 256, 200)
Squashing == phase = 1 =>
  /\ Cl(FTanh(x), 2 * FSigm(2 * x) - FB, 16) /\ FTanh(-x) = -FTanh(x)
  /\ Cl(FSigm(x) + FSigm(-x), FB, 2) /\ FSigm(x) > FB \div 2 - 4
  /\ Cl(FMul(FSigm(x), FB + FExpNeg(x)), FB, 12)
=============================================================================
