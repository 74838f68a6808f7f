-------------------------------- MODULE Wide --------------------------------
(***************************************************************************)
(* Fixed-point real arithmetic with 48 fractional bits inside TLC's 32-bit *)
(* integers, for results of double precision: <<h, l>> stands for          *)
(* h / 2^24 + l / 2^48 with 0 <= l < 2^24; a negative number has a         *)
(* negative h.  Products need factors below 8 in modulus.                  *)
(***************************************************************************)
EXTENDS Fix, TLC

WOf(x) == <<x, 0>>                       \* from 24 fractional bits
WZero == <<0, 0>>
WOne == <<FB, 0>>
WCarry(h, l) == <<h + l \div FB, l % FB>>
WAdd(a, b) == WCarry(a[1] + b[1], a[2] + b[2])
WSub(a, b) == WCarry(a[1] - b[1], a[2] - b[2])
WNeg(a) == WSub(WZero, a)
WIsNeg(a) == a[1] < 0
WAbs(a) == IF WIsNeg(a) THEN WNeg(a) ELSE a
WDbl(a) == WAdd(a, a)
WHalf(a) == <<a[1] \div 2, ((a[1] % 2) * FB + a[2]) \div 2>>
(* a / k for an integer 0 < k < 64 *)
WDivInt(a, k) == <<a[1] \div k, ((a[1] % k) * FB + a[2]) \div k>>
(* k * a for a small integer k *)
WScale(k, a) == WCarry(k * a[1] + (k * (a[2] \div HALF)) \div HALF,
                       (((k * (a[2] \div HALF)) % HALF) * HALF) + k * (a[2] % HALF))

(* product of non-negative numbers below 8: limbs of 12 bits *)
WMulP(a, b) ==
  LET a0 == a[1] \div HALF  a1 == a[1] % HALF  a2 == a[2] \div HALF  a3 == a[2] % HALF
      b0 == b[1] \div HALF  b1 == b[1] % HALF  b2 == b[2] \div HALF  b3 == b[2] % HALF
      t3 == a0 * b3 + a1 * b2 + a2 * b1 + a3 * b0
      t2 == a0 * b2 + a1 * b1 + a2 * b0 + t3 \div HALF
      t1 == a0 * b1 + a1 * b0 + t2 \div HALF
  IN <<a0 * b0 + t1 \div HALF, (t1 % HALF) * HALF + (t2 % HALF)>>
WMul(a, b) ==
  IF WIsNeg(a) THEN (IF WIsNeg(b) THEN WMulP(WNeg(a), WNeg(b)) ELSE WNeg(WMulP(WNeg(a), b)))
               ELSE (IF WIsNeg(b) THEN WNeg(WMulP(a, WNeg(b))) ELSE WMulP(a, b))
WSq(a) == WMul(a, a)

(* closeness in units of 2^-48; recorded values may be a sentinel *)
WSane(a) == a[1] > -FBound /\ a[1] < FBound /\ a[2] >= 0 /\ a[2] < FB
WNear(a, b, tol) ==
  /\ WSane(a)
  /\ LET d == WAbs(WSub(a, b)) IN d[1] = 0 /\ d[2] <= tol

(* quotient of non-negative numbers, a <= 7 b, by long division *)
RECURSIVE WDivBits(_, _, _, _)
WLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
WDivBits(q, r, b, n) ==
  IF n = 0 THEN q
  ELSE LET r2 == TLCEval(WDbl(r))
       IN IF WLess(r2, b) THEN WDivBits(TLCEval(WDbl(q)), r2, b, n - 1)
          ELSE WDivBits(TLCEval(WAdd(WDbl(q), <<0, 1>>)), TLCEval(WSub(r2, b)), b, n - 1)
RECURSIVE WDivInit(_, _, _)
WDivInit(q, r, b) == IF WLess(r, b) THEN WDivBits(<<0, q>>, r, b, 48) ELSE WDivInit(q + 1, WSub(r, b), b)
WDivP(a, b) == WDivInit(0, a, b)
WDiv(a, b) ==
  IF WIsNeg(a) THEN (IF WIsNeg(b) THEN WDivP(WNeg(a), WNeg(b)) ELSE WNeg(WDivP(WNeg(a), b)))
               ELSE (IF WIsNeg(b) THEN WNeg(WDivP(a, WNeg(b))) ELSE WDivP(a, b))

(* exp(-x), x >= 0 *)
RECURSIVE WExpSer(_, _, _, _)
WExpSer(x, t, k, acc) ==
  IF k > 20 \/ t = WZero THEN acc
  ELSE LET t2 == TLCEval(WDivInt(WMulP(t, x), k))
       IN WExpSer(x, t2, k + 1, TLCEval(IF k % 2 = 1 THEN WSub(acc, t2) ELSE WAdd(acc, t2)))
WExpFrac(x) == WExpSer(x, WOne, 1, WOne)          \* 0 <= x < 1
WEInv == <<6171992, 14201789>>                    \* exp(-1)
RECURSIVE WEPow(_, _)
WEPow(n, acc) == IF n = 0 THEN acc ELSE WEPow(n - 1, TLCEval(WMulP(acc, WEInv)))
WExpNeg(x) ==
  LET n == x[1] \div FB
  IN IF n > 36 THEN WZero ELSE WMulP(WEPow(n, WOne), WExpFrac(<<x[1] % FB, x[2]>>))

(* sine and cosine *)
RECURSIVE WSinSer(_, _, _, _)
WSinSer(x2, t, k, acc) ==
  IF k > 21 \/ t = WZero THEN acc
  ELSE WSinSer(x2, TLCEval(WNeg(WDivInt(WDivInt(WMul(t, x2), k + 1), k + 2))), k + 2, TLCEval(WAdd(acc, t)))
WHPI == <<26353589, 4473554>>                     \* pi / 2
WSinCos(x) ==                                     \* <<sin x, cos x>>
  LET n == (x[1] + HPI \div 2) \div HPI
      y == WSub(x, WScale(n, WHPI))
      y2 == TLCEval(WSq(y))
      s == WSinSer(y2, y, 1, WZero)
      c == WSinSer(y2, WOne, 0, WZero)
      q == n % 4
  IN CASE q = 0 -> <<s, c>>
       [] q = 1 -> <<c, WNeg(s)>>
       [] q = 2 -> <<WNeg(s), WNeg(c)>>
       [] OTHER -> <<WNeg(c), s>>

(* hyperbolic tangent and logistic function *)
WTanh(x) ==
  LET e == TLCEval(WExpNeg(WDbl(WAbs(x))))
      t == WDivP(WSub(WOne, e), WAdd(WOne, e))
  IN IF WIsNeg(x) THEN WNeg(t) ELSE t
WSigm(x) ==
  LET e == TLCEval(WExpNeg(WAbs(x)))
      s == WDivP(WOne, WAdd(WOne, e))
  IN IF WIsNeg(x) THEN WSub(WOne, s) ELSE s

(* square root of a number below 8 by bisection from a Newton start *)
RECURSIVE WSqrtIt(_, _, _)
WSqrtIt(a, s, n) ==
  IF n = 0 \/ s = WZero THEN s ELSE WSqrtIt(a, TLCEval(WHalf(WAdd(s, WDivP(a, s)))), n - 1)
WSqrt(a) == IF a = WZero THEN WZero ELSE WSqrtIt(a, WOf(FSqrt(a[1]) + 1), 2)     \* a not too small

(* natural logarithm of a > 0: 2 artanh((m - 1)/(m + 1)) for m in [1, 2) *)
WLN2 == <<11629079, 16241103>>
RECURSIVE WLnSer(_, _, _, _)
WLnSer(y2, t, k, acc) ==
  IF k > 35 \/ t = WZero THEN acc
  ELSE WLnSer(y2, TLCEval(WMulP(t, y2)), k + 2, TLCEval(WAdd(acc, WDivInt(t, k))))
WLnMant(m) == LET y == TLCEval(WDivP(WSub(m, WOne), WAdd(m, WOne))) IN WDbl(WLnSer(TLCEval(WSq(y)), y, 1, WZero))
RECURSIVE WLnAt(_, _)
WLnAt(a, k) == IF a[1] >= 2 * FB THEN WLnAt(TLCEval(WHalf(a)), k + 1)
               ELSE IF a[1] < FB THEN WLnAt(TLCEval(WDbl(a)), k - 1)
               ELSE WAdd(WScale(k, WLN2), WLnMant(a))
WLn(a) == WLnAt(a, 0)
=============================================================================
