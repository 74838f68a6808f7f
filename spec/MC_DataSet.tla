----------------------------- MODULE MC_DataSet -----------------------------
(***************************************************************************)
(* All short histories of additions and reads; printed and replayed.       *)
(***************************************************************************)
EXTENDS DataSet, TLC, Json

CONSTANTS Depth
VARIABLES d, hist

Scal(n, k) == [io |-> "s", v |-> [i \in 1..n |-> <<k, i>>]]
Maps(k) == [io |-> "m", v |-> <<[sh |-> <<1, 1>>, v |-> <<<<k, 0>>>>]>>]
Reads == {"count", "get", "iter", "into", "csv", "copy"}

Init == d = Empty /\ hist = <<>>
Put(o) == LET h == Append(hist, o) IN hist' = h /\ (Len(h) = Depth => PrintT(ToJson([ops |-> h])))
Add(o) ==
  LET n == Len(hist)
      x == IF o = "add_maps" THEN Maps(n) ELSE Scal((n % 2) + 1, n)
      t == Scal(n % 3, n)
      e == AddPoint(d, x, t)
  IN /\ Put(o) /\ d' = e
     (* an addition keeps what was there, and comes last *)
     /\ Assert(/\ Len(e) = Len(d) + 1 /\ SubSeq(e, 1, Len(d)) = d
               /\ Inputs(e) = Append(Inputs(d), x) /\ Targets(e) = Append(Targets(d), t)
               /\ Export(e) = Append(Export(d), x.v \o t.v), <<"addition", d>>)
Next == /\ Len(hist) < Depth
        /\ \/ \E o \in {"add", "add_maps"} : Add(o)
           \/ \E o \in Reads : Put(o) /\ d' = d
(* pairs stay together *)
Paired == Len(Inputs(d)) = Len(Targets(d)) /\ \A i \in 1..Len(d) : d[i].x = Inputs(d)[i] /\ d[i].t = Targets(d)[i]
=============================================================================
