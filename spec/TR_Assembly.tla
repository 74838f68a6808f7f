---------------------------- MODULE TR_Assembly ----------------------------
(***************************************************************************)
(* Recorded histories of attempts, replayed step by step; at the end the   *)
(* network built by the code predicts what the one built here predicts.    *)
(***************************************************************************)
EXTENDS Assembly, Events

E == INSTANCE Exact

VARIABLES l, i, net, v

RECURSIVE AddUp(_)
AddUp(s) == IF s = <<>> THEN 0 ELSE Head(s) + AddUp(Tail(s))
Params(n) == AddUp([k \in 1..Len(n) |-> E!Params(n[k])])
Looks(see, n) ==
  CASE ~Is(see.params, Params(n)) -> "parameter count"
    [] n = <<>> /\ ~(Failed(see.ins) /\ Failed(see.outs)) -> "an empty network has a shape"
    [] n # <<>> /\ ~Is(see.ins, Ins(n[1])) -> "input shape"
    [] n # <<>> /\ ~Is(see.outs, Outs(n[Len(n)])) -> "output shape"
    [] OTHER -> "ok"
StepVerdict(o, n) ==
  IF o.op = "new" THEN Looks(o.see, n)
  ELSE LET why == Reasons(n, o.op, o.l)
       IN CASE why = {} /\ ~Ok(o.r) -> "fitting layer refused"
            [] why # {} /\ ~Failed(o.r) -> "unsuitable layer not refused"
            [] why # {} /\ o.r.e \notin why -> "wrong reason: " \o o.r.e
            [] OTHER -> Looks(o.see, After(n, o.op, o.l))
(* an input that suits the first layer *)
Suits(n, x) == n # <<>> /\ Ins(n[1]) = <<x.io, Len(x.v)>>
PredVerdict(e, n) ==
  IF \E k \in 1..Len(e.preds) : Suits(n, e.preds[k].x) /\ ~Is(e.preds[k].r, E!Predict(n, e.preds[k].x))
  THEN "prediction of the assembled network" ELSE "ok"

Init == l \in 1..NEvents /\ i = 1 /\ net = <<>> /\ v = "todo"
Next ==
  LET e == Trace[l] IN
  /\ v = "todo" /\ l' = l
  /\ IF i > Len(e.ops)
     THEN i' = i /\ net' = net /\ v' = PredVerdict(e, net)
     ELSE LET o == e.ops[i]  w == StepVerdict(o, net)
          IN /\ i' = i + 1 /\ v' = IF w = "ok" THEN "todo" ELSE w
             /\ net' = IF o.op = "new" THEN net ELSE After(net, o.op, o.l)
Accepted == v \in {"todo", "ok", "known"}
=============================================================================
