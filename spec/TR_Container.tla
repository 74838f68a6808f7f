---------------------------- MODULE TR_Container ----------------------------
(***************************************************************************)
(* Recorded histories of matrix updates, replayed step by step.            *)
(***************************************************************************)
EXTENDS Container, Events

VARIABLES l, i, m, v

Start(e) == CASE e.init.how = "cap"  -> NewC(<<e.init.r, e.init.c>>)
              [] e.init.how = "new"  -> NewC(<<0, 0>>)
              [] e.init.how = "body" -> FromC(e.init.rows, e.init.c)

(* what is observable after each operation *)
SameObs(s, o) == o.shape = ShapeC(s) /\ o.cap = s.cap /\ o.body = BodyC(s)

OpVerdict(o, e) ==
  CASE Panicked(o.res) -> "panic in " \o o.op
    [] e.ok # Ok(o.res) -> "acceptance of " \o o.op
    [] ~SameObs(e.m, o) -> "contents after " \o o.op
    [] o.op = "del_row" /\ e.ok /\ o.res.v # e.ret -> "deleted row"
    [] o.op \in {"add_mut_row", "add_col"} /\ o.rest # e.rest -> "argument after " \o o.op
    [] OTHER -> "todo"

Init == /\ l \in 1..NEvents /\ i = 0 /\ m = Start(Trace[l])
        /\ v = IF SameObs(m, Trace[l].first) THEN "todo" ELSE "initial matrix"
Next ==
  /\ v = "todo" /\ l' = l
  /\ IF i = Len(Trace[l].ops) THEN v' = "ok" /\ UNCHANGED <<i, m>>
     ELSE LET o == Trace[l].ops[i + 1]
              e == Effect(m, o.op, o.arg, o.n)
          IN i' = i + 1 /\ m' = e.m /\ v' = OpVerdict(o, e)
Accepted == v \in {"todo", "ok", "known"}
=============================================================================
