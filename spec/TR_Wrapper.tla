----------------------------- MODULE TR_Wrapper -----------------------------
(***************************************************************************)
(* Recorded uses of wrappers and one-hot targets.                          *)
(***************************************************************************)
EXTENDS Wrapper, Events

VARIABLES l, i, x, v

Ops(e) == IF e.ev = "wrap" THEN e.ops ELSE <<>>
(* exactly the contents, or no data at all *)
Only(has, r, want) == IF has THEN Is(r, want) ELSE ~Ok(r)
OpVerdict(o) ==
  CASE o.op = "read" -> IF Only(Gives(x, "s"), o.r, x.v) THEN "todo" ELSE "reading scalars"
    [] o.op = "set"  -> IF Only(Gives(x, "s"), o.r, Len(x.v)) THEN "todo" ELSE "mutable access"
    [] o.op = "rvec" -> IF Only(Gives(x, "s"), o.r, x.v) /\ (Gives(x, "s") \/ Failed(o.r)) THEN "todo" ELSE "releasing scalars"
    [] o.op = "rmaps" -> IF Only(Gives(x, "m"), o.r, x.v) /\ (Gives(x, "m") \/ Failed(o.r)) THEN "todo" ELSE "releasing maps"
    [] o.op = "look" -> IF o.r = x THEN "todo" ELSE "original of a changed copy"
LastVerdict(e) ==
  CASE e.ev = "wrap"  -> IF Is(e.last, x) THEN "ok" ELSE "final contents"
    [] e.ev = "freed" -> IF Is(e.r, e.x) THEN "ok" ELSE "released contents"
    [] e.ev = "hot"   -> IF Fits(e.n, e.k) THEN (IF Is(e.r, OneHot(e.n, e.k)) THEN "ok" ELSE "one-hot target")
                         ELSE (IF Failed(e.r) THEN "ok" ELSE "index outside the size")

Init == l \in 1..NEvents /\ i = 0 /\ v = "todo" /\ x = IF Trace[l].ev = "hot" THEN <<>> ELSE Trace[l].x
Next ==
  /\ v = "todo" /\ l' = l
  /\ LET e == Trace[l] IN
     IF i = Len(Ops(e)) THEN v' = LastVerdict(e) /\ UNCHANGED <<i, x>>
     ELSE LET o == e.ops[i + 1]
          IN /\ i' = i + 1 /\ v' = OpVerdict(o)
             /\ x' = IF o.op = "set" THEN SetAt(x, o.k, o.to) ELSE x
Accepted == v \in {"todo", "ok", "known"}
=============================================================================
