----------------------------- MODULE TR_Signal -----------------------------
(***************************************************************************)
(* Recorded signal sets, point by point, each set from its own seed.       *)
(***************************************************************************)
EXTENDS Signal, Events

VARIABLES l, i, st, v

(* single precision: errors of the phases grow with the number of waves and *)
(* with the factor of the scaling                                           *)
TolClean(n, peak) == 100 + 40 * n * (FB \div (4 * peak) + 1)
TolNoise(thr) == 400 + 40 * thr

PointVerdict(e, s, p) ==
  LET n == e.samples IN
  IF Len(p.x) # n \/ Len(p.t) # n THEN "number of samples"
  ELSE IF e.thr = 0 /\ ~p.same THEN "noise at level zero"
  ELSE IF n = 0 THEN "todo"
  ELSE LET raw == Raw(s, n)
           peak == Peak(raw)
       IN IF peak < FB \div 64 THEN "todo"        \* next to cancellation
          ELSE LET c == Clean(raw)
                   tol == TolClean(Waves(s), peak)
               IN CASE \E k \in 1..n : ~FCNear(p.t[k], c[k], tol) -> "clean signal"
                    [] \E k \in 1..n : Steady(s, k) /\ ~FCNear(p.x[k], FCAdd(c[k], Noise(s, k, e.thr, c[k])), tol + TolNoise(e.thr)) -> "corrupted signal"
                    [] OTHER -> "todo"

First(e) ==
  CASE Panicked(e.r) -> "panic"
    [] e.r.v.counts # <<e.batch, e.batch>> -> "number of points"
    [] Len(e.r.v.train) # e.batch \/ Len(e.r.v.test) # e.batch -> "number of points"
    [] OTHER -> "todo"

Init == /\ l \in 1..NEvents /\ i = 0
        /\ st = <<SeedState(Trace[l].s1), SeedState(Trace[l].s2)>>
        /\ v = First(Trace[l])
(* without points nothing is drawn and the seeds stay as given *)
Kept(e) == e.batch = 0
Next ==
  /\ v = "todo" /\ l' = l
  /\ LET e == Trace[l] IN
     IF i = 2 * e.batch
     THEN v' = (IF Kept(e) \/ e.st = st THEN "ok" ELSE "seeds afterwards") /\ UNCHANGED <<i, st>>
     ELSE LET which == (i % 2) + 1
              b == i \div 2 + 1
              p == IF which = 1 THEN e.r.v.train[b] ELSE e.r.v.test[b]
          IN /\ i' = i + 1
             /\ v' = PointVerdict(e, st[which], p)
             /\ st' = [st EXCEPT ![which] = Ahead(@, Used(@, e.samples))]
Accepted == v \in {"todo", "ok", "known"}
=============================================================================
