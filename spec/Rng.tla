-------------------------------- MODULE Rng --------------------------------
(***************************************************************************)
(* The linear congruential generator s' = (1103515245 s + 12345) mod M,    *)
(* M = 2^31 - 1, in arithmetic that never leaves 32 bits.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

AddMod(a, b, m) == IF a >= m - b THEN a - (m - b) ELSE a + b        \* 0 <= a, b < m
RECURSIVE MulMod(_, _, _)
MulMod(a, b, m) ==                                                  \* double and add
  IF b = 0 THEN 0
  ELSE LET h == MulMod(a, b \div 2, m)
           d == AddMod(h, h, m)
       IN IF b % 2 = 1 THEN AddMod(d, a, m) ELSE d
RECURSIVE PowMod(_, _, _)
PowMod(a, n, m) ==
  IF n = 0 THEN 1 % m
  ELSE LET h == PowMod(a, n \div 2, m)
           d == MulMod(h, h, m)
       IN IF n % 2 = 1 THEN MulMod(d, a, m) ELSE d

M == 2147483647
A == 1103515245
B == 12345

(* seeds are unsigned 128-bit numbers, given as 16-bit limbs, highest first *)
RECURSIVE ReduceTo(_, _, _)
ReduceTo(limbs, n, m) ==
  IF n = 0 THEN 0 ELSE AddMod(MulMod(ReduceTo(limbs, n - 1, m), 65536 % m, m), limbs[n] % m, m)
SeedState(limbs) == ReduceTo(limbs, Len(limbs), M)
(* a state as limbs *)
LimbsOf(s) == <<0, 0, 0, 0, 0, 0, s \div 65536, s % 65536>>

Draw(s) == AddMod(MulMod(A, s, M), B, M)
(* the state whose successor is t *)
AInv == PowMod(A, M - 2, M)
Before(t) == MulMod(AddMod(t, M - B, M), AInv, M)

(* n draws at once: the composition of n copies of x -> A x + B *)
RECURSIVE Turns(_)
Turns(n) ==
  IF n = 0 THEN <<1, 0>>
  ELSE LET h == Turns(n \div 2)
           d == <<MulMod(h[1], h[1], M), AddMod(MulMod(h[1], h[2], M), h[2], M)>>
       IN IF n % 2 = 1 THEN <<MulMod(A, d[1], M), AddMod(MulMod(A, d[2], M), B, M)>> ELSE d
Jump(s, n) == LET p == Turns(n) IN AddMod(MulMod(p[1], s, M), p[2], M)

(* index draws: equal steps *)
Index(s, limit) == LET k == s \div (M \div limit) IN IF k < limit THEN k ELSE limit - 1
=============================================================================
