------------------------------- MODULE TR_Rng -------------------------------
(***************************************************************************)
(* Recorded sequences of draws, replayed step by step.                     *)
(***************************************************************************)
EXTENDS Rng, Events

VARIABLES l, i, s, v

Dist(a, b) == IF a > b THEN a - b ELSE b - a
(* values of real draws: f64 times 2^31 (exact), f32 times 2^30 (rounded) *)
ValueOk(o, t) ==
  CASE o.op = "f64" -> o.r.v = t
    [] o.op = "f32" -> Dist(o.r.v, t \div 2) <= t \div 33554432 + 1
    [] o.op = "idx" -> o.r.v = Index(t, o.n)
    [] o.op = "real64" ->  \* divided by the scale, times 2^30
         IF o.n = 0 THEN o.r.v = 0
         ELSE o.inside /\ Dist(o.r.v, t - 1073741824) <= 1
    [] OTHER ->        \* scaled draws divided by the scale, times 2^24
         IF o.n = 0 THEN o.r.v = 0
         ELSE o.inside /\ Dist(o.r.v, t \div 64 - 16777216) <= 4

OpVerdict(o, t) ==
  CASE Panicked(o.r) -> "panic in draw " \o o.op
    [] o.st # t -> "state after draw " \o o.op
    [] ~ValueOk(o, t) -> "value of draw " \o o.op
    [] OTHER -> "todo"

Init == l \in 1..NEvents /\ i = 0 /\ s = SeedState(Trace[l].seed) /\ v = "todo"
Next ==
  /\ v = "todo" /\ l' = l
  /\ IF i = Len(Trace[l].ops) THEN v' = "ok" /\ UNCHANGED <<i, s>>
     ELSE LET o == Trace[l].ops[i + 1]
          IN i' = i + 1 /\ s' = Draw(s) /\ v' = OpVerdict(o, s')
Accepted == v \in {"todo", "ok", "known"}
=============================================================================
