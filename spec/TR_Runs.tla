------------------------------ MODULE TR_Runs ------------------------------
(***************************************************************************)
(* Recorded histories of reads (by one thread, by several, in a forced     *)
(* order) and whole runs repeated in different surroundings.  Results are  *)
(* digests of all their bits.  A call may panic (a division by zero, say), *)
(* but then it always does.                                                *)
(***************************************************************************)
EXTENDS Reads, Events

VARIABLES l, i, memo, v

Ops(e) == CASE e.ev = "past"  -> e.ops
            [] e.ev = "repro" -> [n \in 1..Len(e.runs) |-> [ver |-> 0, c |-> "run", r |-> e.runs[n].r]]
            [] OTHER -> <<>>

OpVerdict(e, o, n) ==
  CASE o.c = "train" -> "todo"
    [] Agrees(memo, <<o.ver, o.c>>, o.r) -> "todo"
    [] e.ev = "repro" -> "different results: " \o e.runs[n].how
    [] OTHER -> "different result of " \o o.c

Init == /\ l \in 1..NEvents /\ i = 0 /\ memo = NoReads
        /\ v = IF Trace[l].ev = "broken" THEN "network not built" ELSE "todo"
Next ==
  /\ v = "todo" /\ l' = l
  /\ LET e == Trace[l]  ops == Ops(e) IN
     IF i = Len(ops) THEN v' = "ok" /\ UNCHANGED <<i, memo>>
     ELSE LET o == ops[i + 1]
          IN /\ i' = i + 1
             /\ v' = OpVerdict(e, o, i + 1)
             /\ memo' = IF o.c = "train" THEN memo ELSE Remember(memo, <<o.ver, o.c>>, o.r)
Accepted == v \in {"todo", "ok", "known"}
=============================================================================
