------------------------------- MODULE Gauss -------------------------------
(***************************************************************************)
(* Exact complex arithmetic on Gaussian integers.  A number is a pair      *)
(* <<re, im>>.  All data handed to the implementation in the exact checks  *)
(* is small enough to be represented without rounding in f32 and f64, in   *)
(* any order of summation, so results are compared for equality.           *)
(***************************************************************************)
EXTENDS Integers, Sequences

GZero == <<0, 0>>
GOne  == <<1, 0>>
GI    == <<0, 1>>

GAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
GSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
GMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
GNeg(a)    == <<-a[1], -a[2]>>
GConj(a)   == <<a[1], -a[2]>>
GNormSq(a) == a[1] * a[1] + a[2] * a[2]
GScale(k, a) == <<k * a[1], k * a[2]>>

(* q is the exact quotient a / b, written without division:  q * b = a.    *)
GIsQuot(q, a, b) == GMul(q, b) = a

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF a < b THEN a ELSE b

(* Largest magnitude that a recorded integer may have; larger ones (and    *)
(* anything not an integer, NaN, infinities) are recorded as Sentinel.     *)
Bound == 1000000000
Sentinel == 2000000001
Sane(x) == x >= -Bound /\ x <= Bound

(* Gaussian integers of a square box. *)
Box(k) == { <<x, y>> : x \in -k..k, y \in -k..k }
=============================================================================
