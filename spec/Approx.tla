------------------------------- MODULE Approx -------------------------------
(***************************************************************************)
(* The layers over fixed-point complex numbers, for all activations.       *)
(***************************************************************************)
EXTENDS ActFun

RECURSIVE FPartSum(_, _, _, _)
FPartSum(blk, part, n, weighted) ==
  IF n = 0 THEN 0
  ELSE FPartSum(blk, part, n - 1, weighted) + (IF weighted THEN n ELSE 1) * blk[n][part]
ABlock(f, blk) ==
  CASE f = "sum"   -> <<FPartSum(blk, 1, Len(blk), FALSE), FPartSum(blk, 2, Len(blk), FALSE)>>
    [] f = "wsum"  -> <<FPartSum(blk, 1, Len(blk), TRUE), FPartSum(blk, 2, Len(blk), TRUE)>>
    [] f = "mean"  -> <<FPartSum(blk, 1, Len(blk), FALSE) \div Len(blk),
                        FPartSum(blk, 2, Len(blk), FALSE) \div Len(blk)>>
    [] f = "first" -> blk[1]
    [] f = "last"  -> blk[Len(blk)]

INSTANCE Layers WITH Add <- FCAdd, Mul <- FCMul, Conj <- FCConj, Zero <- FCZero,
                     Act <- FAct, Back <- FBack, BlockF <- ABlock

DSq(t, p) == TLCEval([i \in 1..Len(p) |-> FCConj(FCSub(p[i], t[i]))])
M1 == <<-FB, 0>>
=============================================================================
