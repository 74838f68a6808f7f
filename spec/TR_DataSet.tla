----------------------------- MODULE TR_DataSet -----------------------------
(***************************************************************************)
(* Recorded histories of data sets.  Elements are the bits of numbers.     *)
(***************************************************************************)
EXTENDS DataSet, Events

VARIABLES l, i, d, v

OpVerdict(o) ==
  CASE o.op = "add" -> "todo"
    [] o.op = "copy" -> IF o.n = Len(d) + 1 THEN "todo" ELSE "length of a copy"
    [] Panicked(o.r) -> "panic in " \o o.op
    [] Failed(o.r) -> "error in " \o o.op
    [] o.op = "count" /\ o.r.v # Len(d) -> "number of points"
    [] o.op = "get" /\ o.r.v # d[o.i] -> "point by index"
    [] o.op = "all" /\ (o.r.v.xs # Inputs(d) \/ o.r.v.ts # Targets(d)) -> "points by iteration"
    [] o.op = "csv" /\ ~(o.r.v.ended /\ o.r.v.lines = Export(d)) -> "exported lines"
    [] OTHER -> "todo"

Init == l \in 1..NEvents /\ i = 0 /\ d = Empty /\ v = "todo"
Next ==
  /\ v = "todo" /\ l' = l
  /\ IF i = Len(Trace[l].ops) THEN v' = "ok" /\ UNCHANGED <<i, d>>
     ELSE LET o == Trace[l].ops[i + 1]
          IN /\ i' = i + 1 /\ v' = OpVerdict(o)
             /\ d' = IF o.op = "add" THEN AddPoint(d, o.x, o.t) ELSE d
Accepted == v \in {"todo", "ok", "known"}
=============================================================================
