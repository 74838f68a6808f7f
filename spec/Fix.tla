-------------------------------- MODULE Fix --------------------------------
(***************************************************************************)
(* Fixed-point real arithmetic with 24 fractional bits inside TLC's 32-bit *)
(* integers: x stands for the real number x / 2^24, |x| < 2^30 (64).       *)
(* Elementary functions are defined from first principles (series, long    *)
(* division, Newton iteration), independently of the implementation.       *)
(* Each operation is off by at most a few units of 2^-24 (6e-8).           *)
(***************************************************************************)
EXTENDS Integers, Sequences

FB   == 16777216          \* 2^24, the number one
HALF == 4096              \* 2^12, limb size

FAbs(x) == IF x < 0 THEN -x ELSE x
FInt(n) == n * FB

(* product; |a * b| must stay below 64 as real number *)
FMulP(a, b) ==            \* both non-negative
  LET ah == a \div HALF  al == a % HALF
      bh == b \div HALF  bl == b % HALF
  IN ah * bh + (ah * bl) \div HALF + (al * bh) \div HALF
       + (((ah * bl) % HALF) + ((al * bh) % HALF) + (al * bl) \div HALF + HALF \div 2) \div HALF
FMul(a, b) ==
  IF a >= 0 THEN (IF b >= 0 THEN FMulP(a, b) ELSE -FMulP(a, -b))
            ELSE (IF b >= 0 THEN -FMulP(-a, b) ELSE FMulP(-a, -b))
FSq(a) == FMul(a, a)

(* quotient by long division; |b| < 2^30, |a / b| < 64 *)
RECURSIVE DivBits(_, _, _, _)
DivBits(q, r, b, n) ==
  IF n = 0 THEN (IF 2 * r >= b THEN q + 1 ELSE q)
  ELSE LET r2 == 2 * r
       IN IF r2 >= b THEN DivBits(2 * q + 1, r2 - b, b, n - 1)
                     ELSE DivBits(2 * q, r2, b, n - 1)
FDivP(a, b) == DivBits(a \div b, a % b, b, 24)
FDiv(a, b) ==
  IF a >= 0 THEN (IF b >= 0 THEN FDivP(a, b) ELSE -FDivP(a, -b))
            ELSE (IF b >= 0 THEN -FDivP(-a, b) ELSE FDivP(-a, -b))
(* the rational number p / q *)
FRat(p, q) == FDiv(p, q)

(* square root by Newton iteration from above *)
RECURSIVE SqrtIt(_, _, _)
SqrtIt(a, s, n) ==
  IF n = 0 THEN s
  ELSE LET t == (s + FDivP(a, s) + 1) \div 2
       IN IF t >= s THEN s ELSE SqrtIt(a, t, n - 1)
RECURSIVE SqrtStart(_, _)
SqrtStart(a, s) == IF s >= 8 * FB \/ FMulP(s, s) >= a THEN s ELSE SqrtStart(a, 2 * s)
FSqrt(a) == IF a <= 0 THEN 0 ELSE SqrtIt(a, SqrtStart(a, 4096), 40)

(* square root of a non-negative integer n < 4096 *)
ISqrtF(n) ==              \* scale by 4 until it fits
  IF n < 64 THEN FSqrt(FInt(n))
  ELSE IF n < 1024 THEN 4 * FSqrt((n * (FB \div 16)))
  ELSE 16 * FSqrt(n * (FB \div 256))

(* exp(-x), x >= 0 *)
RECURSIVE ExpSer(_, _, _, _)
ExpSer(x, t, k, acc) ==
  IF t = 0 \/ k > 14 THEN acc
  ELSE LET t2 == FMul(t, x) \div k
       IN ExpSer(x, t2, k + 1, acc + (IF k % 2 = 1 THEN -t2 ELSE t2))
ExpFrac(x) == ExpSer(x, FB, 1, FB)          \* 0 <= x < 1
EInv == FSq(ExpFrac(FB \div 2))              \* exp(-1)
RECURSIVE EPow(_, _)
EPow(n, acc) == IF n = 0 THEN acc ELSE EPow(n - 1, FMulP(acc, EInv))
FExpNeg(x) ==
  LET n == x \div FB
  IN IF n > 20 THEN 0 ELSE FMulP(EPow(n, FB), ExpFrac(x % FB))
(* exp(x), |x| <= 4 *)
FExp(x) == IF x <= 0 THEN FExpNeg(-x) ELSE FDiv(FB, FExpNeg(x))

(* natural logarithm *)
LN2 == 11629080                              \* ln 2
RECURSIVE AtanhSer(_, _, _, _)
AtanhSer(y2, t, k, acc) ==
  IF t = 0 \/ k > 25 THEN acc ELSE AtanhSer(y2, FMul(t, y2), k + 2, acc + t \div k)
LnMant(m) ==                                 \* FB <= m < 2 FB
  LET y == FDiv(m - FB, m + FB)
  IN 2 * AtanhSer(FSq(y), y, 1, 0)
RECURSIVE LnNorm(_, _)
LnNorm(m, k) ==
  IF m >= 2 * FB THEN LnNorm(m \div 2, k + 1)
  ELSE IF m < FB THEN LnNorm(2 * m, k - 1)
  ELSE k * LN2 + LnMant(m)
FLn(a) == LnNorm(a, 0)                       \* a > 0
FLnInt(n) == LnNorm(n, 24)                   \* ln of the integer n >= 1

(* sine and cosine: reduction to [-pi/4, pi/4] and series *)
RECURSIVE SinSer(_, _, _, _)
SinSer(x2, t, k, acc) ==
  IF t = 0 \/ k > 13 THEN acc
  ELSE SinSer(x2, -(FMul(t, x2) \div ((k + 1) * (k + 2))), k + 2, acc + t)
RECURSIVE CosSer(_, _, _, _)
CosSer(x2, t, k, acc) ==
  IF t = 0 \/ k > 12 THEN acc
  ELSE CosSer(x2, -(FMul(t, x2) \div ((k + 1) * (k + 2))), k + 2, acc + t)
HPI == 26353589
FSinCos(x) ==                                \* <<sin x, cos x>>
  LET n == (x + HPI \div 2) \div HPI
      y == x - n * HPI - n \div 4
      y2 == FSq(y)
      s == SinSer(y2, y, 1, 0)
      c == CosSer(y2, FB, 0, 0)
      q == n % 4
  IN CASE q = 0 -> <<s, c>>
       [] q = 1 -> <<c, -s>>
       [] q = 2 -> <<-s, -c>>
       [] OTHER -> <<-c, s>>
FSin(x) == FSinCos(x)[1]
FCos(x) == FSinCos(x)[2]
PI == 52707179
TWOPI == 105414357

(* hyperbolic tangent and logistic function *)
FTanh(x) ==
  LET e == IF FAbs(x) > 40 * FB THEN 0 ELSE FExpNeg(2 * FAbs(x))
      t == FDiv(FB - e, FB + e)
  IN IF x < 0 THEN -t ELSE t
FSigm(x) ==
  LET e == FExpNeg(FAbs(x))
      s == FDiv(FB, FB + e)
  IN IF x < 0 THEN FB - s ELSE s

(* closeness; the recorded value v may be a sentinel far out of range *)
FBound == 1000000000
Near(v, e, tol) == v >= -FBound /\ v <= FBound /\ FAbs(v - e) <= tol

(* complex numbers in fixed point: pairs *)
FCZero == <<0, 0>>
FCOne  == <<FB, 0>>
FCAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
FCSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
FCMul(a, b) == <<FMul(a[1], b[1]) - FMul(a[2], b[2]), FMul(a[1], b[2]) + FMul(a[2], b[1])>>
FCConj(a) == <<a[1], -a[2]>>
FCNeg(a) == <<-a[1], -a[2]>>
FCNormSq(a) == FSq(a[1]) + FSq(a[2])
FCNorm(a) == FSqrt(FCNormSq(a))
FCScale(k, a) == <<FMul(k, a[1]), FMul(k, a[2])>>
FCNear(v, e, tol) == Near(v[1], e[1], tol) /\ Near(v[2], e[2], tol)
=============================================================================
