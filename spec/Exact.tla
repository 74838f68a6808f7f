------------------------------- MODULE Exact -------------------------------
(***************************************************************************)
(* The layers over Gaussian integers, for the activations that map         *)
(* Gaussian integers to Gaussian integers.                                 *)
(***************************************************************************)
EXTENDS Gauss

Pos(x) == IF x > 0 THEN x ELSE 0
EAct(a, z) ==
  CASE a = "None"    -> z
    [] a = "RITReLU" -> <<Pos(z[1]), Pos(z[2])>>
    [] a = "ZReLU"   -> IF z[1] >= 0 /\ z[2] >= 0 THEN z ELSE GZero
(* d L / d q = f_z g + conj(f_zbar) conj(g), simplified per function;       *)
(* defined away from the kinks (no part of q is zero)                       *)
EBack(a, q, g) ==
  CASE a = "None"    -> g
    [] a = "RITReLU" -> <<IF q[1] > 0 THEN g[1] ELSE 0, IF q[2] > 0 THEN g[2] ELSE 0>>
    [] a = "ZReLU"   -> IF q[1] > 0 /\ q[2] > 0 THEN g ELSE GZero
Kink(a, q) == a # "None" /\ (q[1] = 0 \/ q[2] = 0)

(* block functions used with pooling layers; the weighted sum tells the      *)
(* order of the elements                                                     *)
RECURSIVE PartSum(_, _, _, _)
PartSum(blk, part, n, weighted) ==
  IF n = 0 THEN 0
  ELSE PartSum(blk, part, n - 1, weighted) + (IF weighted THEN n ELSE 1) * blk[n][part]
EBlock(f, blk) ==
  CASE f = "sum"   -> <<PartSum(blk, 1, Len(blk), FALSE), PartSum(blk, 2, Len(blk), FALSE)>>
    [] f = "wsum"  -> <<PartSum(blk, 1, Len(blk), TRUE), PartSum(blk, 2, Len(blk), TRUE)>>
    [] f = "first" -> blk[1]
    [] f = "last"  -> blk[Len(blk)]

INSTANCE Layers WITH Add <- GAdd, Mul <- GMul, Conj <- GConj, Zero <- GZero,
                     Act <- EAct, Back <- EBack, BlockF <- EBlock

(* squared error of one point and its derivative w.r.t. the prediction *)
SqErr(t, p) == LET s == [i \in 1..Len(p) |-> GNormSq(GSub(t[i], p[i]))]
               IN FoldLeft(LAMBDA a, e : a + e, 0, s)
DSq(t, p) == TLCEval([i \in 1..Len(p) |-> GConj(GSub(p[i], t[i]))])
M1 == <<-1, 0>>
=============================================================================
