----------------------------- MODULE MC_IdxFile -----------------------------
(***************************************************************************)
(* All short sequences of batch sizes on files of up to MaxRec records.    *)
(***************************************************************************)
EXTENDS IdxFile, TLC, Json

CONSTANTS MaxRec, MaxSize, Depth
VARIABLES images, labels, k, at, given, sizes

Init == /\ images \in 0..MaxRec
        /\ labels \in {images, images + 1} \cup (IF images > 0 THEN {images - 1} ELSE {})
        /\ k = 0 /\ at = 0 /\ given = <<>> /\ sizes = <<>>
Read(n) ==
  LET m == Records(images, labels)
      b == Batch(k, m, n)
      h == Append(sizes, n)
  IN /\ k' = k + b /\ at' = Counter(k + b)
     /\ given' = given \o [j \in 1..b |-> k + j] /\ sizes' = h
     /\ UNCHANGED <<images, labels>>
     /\ Assert(b = n \/ k + b = m, <<"short batch", k, m, n>>)
     /\ Assert(k = m => b = 0, <<"batch after the end", k, m, n>>)
     /\ (Len(h) = Depth => PrintT(ToJson([images |-> images, labels |-> labels, sizes |-> h])))
Next == Len(sizes) < Depth /\ \E n \in 0..MaxSize : Read(n)

(* every record once and in order, none invented *)
OnceInOrder == given = [j \in 1..k |-> j] /\ k <= Records(images, labels)
Counted == sizes # <<>> => at = Header + Len(given)
=============================================================================
