----------------------------- MODULE MC_Wrapper -----------------------------
(***************************************************************************)
(* Laws of the wrappers and one-hot targets, over all small sizes.         *)
(***************************************************************************)
EXTENDS Wrapper, TLC, Json

CONSTANTS Max
VARIABLES job, done

Jobs == [n : 0..Max, k : 0..(Max + 2)] \cup [n : 0..Max, io : {"s", "m"}]
HotLaws(n, k) ==
  Fits(n, k) =>
    LET h == OneHot(n, k) IN /\ Len(h) = n /\ h[k + 1] = <<1, 0>>
                             /\ \A j \in 1..n : j # k + 1 => h[j] = <<0, 0>>
WrapLaws(n, io) ==
  LET x == [io |-> io, v |-> [j \in 1..n |-> <<j>>]]
  IN /\ Gives(x, "s") # Gives(x, "m")
     /\ \A k \in 1..(n + 1) : LET y == SetAt(x, k, <<0>>) IN
          /\ y.io = x.io /\ Len(y.v) = n
          /\ \A j \in 1..n : y.v[j] = (IF j = k /\ io = "s" THEN <<0>> ELSE x.v[j])
Init == job \in Jobs /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ job' = job /\ PrintT(ToJson(job))
        /\ Assert(IF "k" \in DOMAIN job THEN HotLaws(job.n, job.k) ELSE WrapLaws(job.n, job.io), <<"law", job>>)
=============================================================================
