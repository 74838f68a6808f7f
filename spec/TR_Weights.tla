----------------------------- MODULE TR_Weights -----------------------------
(***************************************************************************)
(* Recorded random weights and layer creations, replayed on one generator. *)
(***************************************************************************)
EXTENDS Weights, SequencesExt, Events

VARIABLES l, i, s, v

Tol(w) == 100 + 40 * ((w \div FB) + 1)
(* recorded number o.z against the weight drawn from state t *)
(* (a draw of zero has no logarithm: the radius is then only finite) *)
FineOk(z, m, n, t) ==
  Tight(m, t) => /\ WSane(z[1])
                 /\ WSane(z[2])
                 /\ LET w == WWeight(m, n, t) IN WNear(z[1], w[1], 4096) /\ WNear(z[2], w[2], 4096)
WeightOk(z, m, p, n, t) ==
  Tight(m, t) => /\ z[1] \in -FBound..FBound
                 /\ z[2] \in -FBound..FBound
                 /\ FCNear(z, Weight(m, p, n, t), Tol(FMul(7 * FB, Spread(m, n))))

(* one number *)
GenVerdict(o, t) ==
  CASE Panicked(o.r) -> "panic in " \o o.m
    [] o.st # Ahead(t, Draws(o.m)) -> "draws of " \o o.m
    [] ~o.finite -> "not finite: " \o o.m
    [] o.p = "f32" /\ ~WeightOk(o.r.v, o.m, o.p, o.n, t) -> "value of " \o o.m
    [] o.p = "f64" /\ ~FineOk(o.r.v, o.m, o.n, t) -> "value of " \o o.m
    [] OTHER -> "todo"

(* one layer: its weights in order, zero biases, shapes and counts *)
Wanted(o) == IF o.kind = "dense" THEN "s" ELSE "m"
Count(o) == IF o.kind = "dense" THEN o.out * o.input ELSE o.out * o.input * o.kr * o.kc
Used(o) == IF o.op = "gen" THEN Draws(o.m)
           ELSE IF o.shape = Wanted(o) THEN Draws(o.m) * Count(o) ELSE 0
Runs(o, zs, t) ==
  FoldLeft(LAMBDA a, z : IF ~a.ok THEN a ELSE [ok |-> WeightOk(z, o.m, o.p, o.n, a.t), t |-> Ahead(a.t, Draws(o.m))],
           [ok |-> TRUE, t |-> t], zs).ok
LayerVerdict(o, t) ==
  CASE Panicked(o.r) -> "panic in layer creation"
    [] o.shape # Wanted(o) /\ ~Failed(o.r) -> "wrong input kind accepted"
    [] Used(o) = 0 /\ ~o.same -> "draws without weights"
    [] o.shape = Wanted(o) /\ ~Ok(o.r) -> "creation refused"
    [] Used(o) > 0 /\ o.st # Ahead(t, Used(o)) -> "number of draws"
    [] o.shape = Wanted(o) /\ o.r.v.ins # <<Wanted(o), o.input>> -> "reported input shape"
    [] o.shape = Wanted(o) /\ o.r.v.outs # <<Wanted(o), o.out>> -> "reported output shape"
    [] o.shape = Wanted(o) /\ o.r.v.params # <<Count(o), o.out>> -> "reported parameter counts"
    [] o.shape = Wanted(o) /\ o.r.v.probed /\ Len(o.r.v.w) # Count(o) -> "number of weights"
    [] o.shape = Wanted(o) /\ o.r.v.probed /\ o.r.v.b # [k \in 1..o.out |-> <<0, 0>>] -> "biases"
    [] o.shape = Wanted(o) /\ o.r.v.probed /\ ~Runs(o, o.r.v.w, t) -> "weights in order"
    [] OTHER -> "todo"

Init == l \in 1..NEvents /\ i = 0 /\ s = SeedState(Trace[l].seed) /\ v = "todo"
Next ==
  /\ v = "todo" /\ l' = l
  /\ IF i = Len(Trace[l].ops) THEN v' = "ok" /\ UNCHANGED <<i, s>>
     ELSE LET o == Trace[l].ops[i + 1]
          IN /\ i' = i + 1 /\ s' = Ahead(s, Used(o))
             /\ v' = IF o.op = "gen" THEN GenVerdict(o, s) ELSE LayerVerdict(o, s)
Accepted == v \in {"todo", "ok", "known"}
=============================================================================
