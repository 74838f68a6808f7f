-------------------------------- MODULE Loss --------------------------------
(***************************************************************************)
(* Losses of a target t and a prediction p (vectors).  The squared error   *)
(* is exact over Gaussian integers; the cross entropy is in fixed point.   *)
(***************************************************************************)
EXTENDS Gauss, Wide, SequencesExt

SumI(s) == FoldLeft(LAMBDA acc, e : acc + e, 0, s)
MaxI(s) == FoldLeft(LAMBDA acc, e : IF e > acc THEN e ELSE acc, s[1], s)
Map(F(_), s) == TLCEval([k \in 1..Len(s) |-> F(s[k])])

(* sum of squared moduli; the mean square loss is this over Len(p) *)
SqSum(t, p) == SumI(TLCEval([k \in 1..Len(p) |-> GNormSq(GSub(t[k], p[k]))]))
DSqSum(t, p) == TLCEval([k \in 1..Len(p) |-> GConj(GSub(p[k], t[k]))])

(* cross entropy: t holds integers (real parts), p fixed-point numbers *)
Norms(p) == Map(FCNormSq, p)
Exps(p) == LET n == Norms(p)  m == MaxI(n) IN TLCEval([k \in 1..Len(p) |-> FExpNeg(m - n[k])])
LogSum(p) == MaxI(Norms(p)) + FLn(SumI(Exps(p)))
Entropy(t, p) ==
  LET n == Norms(p)  m == MaxI(n)  ls == FLn(SumI(Exps(p)))
  IN SumI(TLCEval([k \in 1..Len(p) |-> t[k] * ((m - n[k]) + ls)]))
Softmax(p) == LET e == Exps(p)  s == SumI(e) IN TLCEval([k \in 1..Len(p) |-> FDiv(e[k], s)])
DEntropy(t, p) ==
  LET s == Softmax(p)  n == SumI(t)
  IN TLCEval([k \in 1..Len(p) |-> FCScale(n * s[k] - FInt(t[k]), FCConj(p[k]))])

(* the same at double precision: p holds Gaussian integers in quarters, the *)
(* sum of the targets is one                                                *)
WNorms(p) == Map(LAMBDA z : WOf(GNormSq(z) * (FB \div 16)), p)
WMax(n) == FoldLeft(LAMBDA acc, e : IF WLess(acc, e) THEN e ELSE acc, n[1], n)
WExps(p) == LET n == WNorms(p)  m == WMax(n) IN TLCEval([k \in 1..Len(p) |-> WExpNeg(WSub(m, n[k]))])
WSum(s) == FoldLeft(LAMBDA acc, e : WAdd(acc, e), WZero, s)
(* r is the cross entropy: what it exceeds the linear part by is the        *)
(* logarithm of the sum of the exponentials                                 *)
WEntropyIs(r, t, p, tol) ==
  LET n == WNorms(p)  m == WMax(n)
      ls == WSub(r, WSum([k \in 1..Len(p) |-> WScale(t[k], WSub(m, n[k]))]))
  IN WSane(r) /\ ls[1] >= -1 /\ WNear(WMul(WExpNeg(IF WIsNeg(ls) THEN WZero ELSE ls), WSum(WExps(p))), WOne, tol)
WDEntropy(t, p) ==
  LET e == WExps(p)  s == TLCEval(WSum(e))
  IN TLCEval([k \in 1..Len(p) |->
       LET f == WSub(WDiv(e[k], s), WOf(FInt(t[k])))
       IN <<WMul(f, WOf(p[k][1] * (FB \div 4))), WMul(f, WOf(-p[k][2] * (FB \div 4)))>>])

(* predictions so large that the softmax is the indicator of the maximum:   *)
(* p holds Gaussian integers; values relative to the square of the scale    *)
HugeEntropy(t, p) ==
  LET n == Map(GNormSq, p)  m == MaxI(n)
  IN SumI(TLCEval([k \in 1..Len(p) |-> t[k] * (m - n[k])]))
(* twice the ties, to stay with integers: (ties * t) and so on *)
HugeTies(p) == LET n == Map(GNormSq, p)  m == MaxI(n) IN Len(SelectSeq(n, LAMBDA x : x = m))
DHuge(t, p) ==       \* times the number of ties
  LET n == Map(GNormSq, p)  m == MaxI(n)  c == HugeTies(p)  st == SumI(t)
      f(k) == (IF n[k] = m THEN st ELSE 0) - c * t[k]
  IN TLCEval([k \in 1..Len(p) |-> <<f(k) * p[k][1], -f(k) * p[k][2]>>])

(* class of a vector of Gaussian integers: the first element of largest     *)
(* modulus                                                                  *)
Class(p) ==
  LET n == Map(GNormSq, p)  m == MaxI(n)
  IN CHOOSE k \in 1..Len(p) : n[k] = m /\ \A j \in 1..(k - 1) : n[j] # m
=============================================================================
