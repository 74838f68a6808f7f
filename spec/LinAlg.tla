------------------------------- MODULE LinAlg -------------------------------
(***************************************************************************)
(* Vectors and matrices over an arithmetic given by operators.  A vector   *)
(* is a sequence, a matrix a sequence of rows of equal length.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

CONSTANTS Add(_, _), Mul(_, _), Conj(_), Zero

NRows(A) == Len(A)
NCols(A) == IF Len(A) = 0 THEN 0 ELSE Len(A[1])
Upto(n) == [k \in 1..n |-> k]

SumSeq(s) == FoldLeft(LAMBDA acc, e : Add(acc, e), Zero, s)
SumOver(n, f(_)) == FoldLeft(LAMBDA acc, k : Add(acc, f(k)), Zero, Upto(n))

ZeroVec(n) == [k \in 1..n |-> Zero]
ZeroMat(r, c) == [i \in 1..r |-> ZeroVec(c)]

VAdd(a, b) == [k \in 1..Len(a) |-> Add(a[k], b[k])]
VMul(a, b) == [k \in 1..Len(a) |-> Mul(a[k], b[k])]
VScale(k, a) == [i \in 1..Len(a) |-> Mul(k, a[i])]
VConj(a) == [k \in 1..Len(a) |-> Conj(a[k])]
Dot(a, b) == SumOver(Len(a), LAMBDA k : Mul(a[k], b[k]))
MatVec(A, x) == TLCEval([i \in 1..Len(A) |-> Dot(A[i], x)])
MAdd(A, B) == [i \in 1..Len(A) |-> TLCEval(VAdd(A[i], B[i]))]
MScale(k, A) == [i \in 1..Len(A) |-> VScale(k, A[i])]
MConj(A) == TLCEval([i \in 1..Len(A) |-> TLCEval(VConj(A[i]))])

Flat(A) == FlattenSeq(A)
(* the matrix with c columns and the given row-major contents *)
Shape(v, r, c) == TLCEval([i \in 1..r |-> SubSeq(v, (i - 1) * c + 1, i * c)])
(* the i-th of n equal parts of a vector *)
Part(v, i, n) == LET m == Len(v) \div n IN SubSeq(v, (i - 1) * m + 1, i * m)

(* reversal of both axes *)
Flip(A) == TLCEval([i \in 1..NRows(A) |-> TLCEval([j \in 1..NCols(A) |-> A[NRows(A) + 1 - i][NCols(A) + 1 - j]])])

(* pr rows and pc columns of zeros on each side *)
Pad(A, pr, pc) ==
  LET r == NRows(A)  c == NCols(A)
  IN TLCEval([i \in 1..(r + 2 * pr) |-> TLCEval([j \in 1..(c + 2 * pc) |->
       IF i > pr /\ i <= pr + r /\ j > pc /\ j <= pc + c THEN A[i - pr][j - pc] ELSE Zero])])

(* sliding inner product over the positions where K fits inside A *)
Fits(A, K) == NRows(K) <= NRows(A) /\ NCols(K) <= NCols(A)
Conv(A, K) ==
  LET kr == NRows(K)  kc == NCols(K)
  IN TLCEval([i \in 1..(NRows(A) - kr + 1) |-> TLCEval([j \in 1..(NCols(A) - kc + 1) |->
       SumOver(kr * kc, LAMBDA n :
         LET u == (n - 1) \div kc  v == (n - 1) % kc
         IN Mul(A[i + u][j + v], K[u + 1][v + 1]))])])

(* the block in block-row i, block-column j, as row-major sequence *)
Block(A, br, bc, i, j) ==
  [n \in 1..(br * bc) |-> A[(i - 1) * br + (n - 1) \div bc + 1][(j - 1) * bc + ((n - 1) % bc) + 1]]
Divides(A, br, bc) == NRows(A) % br = 0 /\ NCols(A) % bc = 0 /\ NRows(A) >= br /\ NCols(A) >= bc
BlockReduce(A, br, bc, f(_)) ==
  TLCEval([i \in 1..(NRows(A) \div br) |-> TLCEval([j \in 1..(NCols(A) \div bc) |-> f(Block(A, br, bc, i, j))])])

(* every element in the centre of a br x bc block of zeros *)
Centre(n) == IF n % 2 = 0 THEN n \div 2 ELSE (n + 1) \div 2
Spread(A, br, bc) ==
  TLCEval([i \in 1..(NRows(A) * br) |-> TLCEval([j \in 1..(NCols(A) * bc) |->
     IF ((i - 1) % br) + 1 = Centre(br) /\ ((j - 1) % bc) + 1 = Centre(bc)
     THEN A[(i - 1) \div br + 1][(j - 1) \div bc + 1] ELSE Zero])])
OddShape(K) == NRows(K) % 2 = 1 /\ NCols(K) % 2 = 1
Upsample(A, br, bc, K) ==
  Conv(Pad(Spread(A, br, bc), (NRows(K) - 1) \div 2, (NCols(K) - 1) \div 2), K)
=============================================================================
