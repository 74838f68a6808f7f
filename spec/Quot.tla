-------------------------------- MODULE Quot --------------------------------
(* Quotients of Gaussian integers in fixed point. *)
EXTENDS Gauss, Fix

(* q is a / b up to rounding; parts too large for fixed point are left out  *)
QuotOk(q, a, b) ==
  LET nb == GNormSq(b)
      num == GMul(a, GConj(b))
      \* integer part and remainder apart
      ip(n) == n \div nb
      fr(n) == FDivP(n % nb, nb)
      part(v, n) == IF Abs(ip(n)) >= 55 THEN TRUE
                    ELSE Near(v, FInt(ip(n)) + fr(n), 4 + 60 * (Abs(ip(num[1])) + Abs(ip(num[2])) + 1))
  IN part(q[1], num[1]) /\ part(q[2], num[2])
=============================================================================
