------------------------------- MODULE TR_Net -------------------------------
(***************************************************************************)
(* Recorded inference, training steps and batch measures of networks.      *)
(***************************************************************************)
EXTENDS NetTrace

LS == INSTANCE Loss

VARIABLES l, v

RECURSIVE AddUp(_)
AddUp(s) == IF s = <<>> THEN 0 ELSE Head(s) + AddUp(Tail(s))
ParamsOf(net) == AddUp([n \in 1..Len(net) |-> E!Params(net[n])])

(*------------------------------- inference -------------------------------*)
InferVerdict(e) ==
  LET a == TLCEval(Acts(e, e.net, e.x))  m == e.mode  n == Len(e.net)  tol == 8000
  IN CASE DelicateNet(e, e.net, e.x) -> "ok"
       [] ~IoIs(m, e.pred, a[n + 1], tol) -> "prediction"
       [] ~(Ok(e.acts) /\ Len(e.acts.v) = n + 1 /\ \A k \in 1..(n + 1) : IoOk(m, e.acts.v[k], a[k], tol)) -> "activations"
       [] \E k \in 1..n : LET t == e.taps[k]
                          IN ~(Ok(t.r) /\ IoOk(m, t.r.v.x, a[t.k], tol) /\ IoOk(m, t.r.v.y, a[t.k + 1], tol)) -> "interception"
       [] \E k \in 1..Len(e.beyond) : ~Failed(e.beyond[k]) -> "interception beyond the last layer"
       [] OTHER -> "ok"

(*-------------------------------- training -------------------------------*)
SameShape(e) == Ok(e.before) /\ e.after = e.before
LayersAre(e, net) ==
  /\ Len(e.layers) = Len(net)
  /\ \A n \in 1..Len(net) :
       /\ Ok(e.layers[n])
       /\ \A k \in 1..Len(e.layers[n].v) :
            LET p == e.layers[n].v[k] IN IoIs("q", p.r, E!Out(net[n], p.x), 0)
TrainVerdict(e) ==
  LET net2 == TLCEval(E!Step(e.net, e.xs, LAMBDA p, y : E!DSq(E!FlatIO(e.ts[p]), y), e.rate, E!M1))
  IN CASE ~Ok(e.r) -> "training step refused"
       [] ~SameShape(e) -> "a training step changed the architecture"
       [] ~LayersAre(e, net2) -> "parameters after a training step"
       [] OTHER -> "ok"
SmallVerdict(e) ==
  CASE ~(Failed(e.r) /\ Failed(e.r0)) -> "a network of less than two layers was trained"
    [] ~SameShape(e) \/ e.left # 0 -> "a refused training step changed the architecture"
    [] ~LayersAre(e, e.net) -> "a refused training step changed parameters"
    [] OTHER -> "ok"

(* histories with any activations; ends early where rounding would decide *)
FB == A!FB
Reals(t) == [k \in 1..Len(t) |-> t[k][1] \div FB]
Deriv(loss, t, y) == IF loss = "ms" THEN A!DSq(t, y) ELSE LS!DEntropy(Reals(t), y)
RECURSIVE History(_, _, _)
History(e, net, k) ==
  IF k > Len(e.steps) THEN "ok"
  ELSE LET st == e.steps[k]
           delicate == \E p \in 1..Len(st.xs) : DelicateNet(e, net, st.xs[p])
           rate == <<A!FDiv(st.lr[1], Len(st.xs) * FB), A!FDiv(st.lr[2], Len(st.xs) * FB)>>
           net2 == TLCEval(A!Step(net, st.xs, LAMBDA p, y : Deriv(st.loss, A!FlatIO(st.ts[p]), y), rate, A!M1))
           ActsOk(p) ==
             LET a == TLCEval(A!Acts(net2, e.probes[p]))  r == st.outs[p]
             IN \/ DelicateNet(e, net2, e.probes[p])
                \/ Ok(r) /\ Len(r.v) = Len(a) /\ \A n \in 1..Len(a) : IoOk("f", r.v[n], a[n], 16000)
       IN CASE delicate -> "ok"
            [] ~Ok(st.r) -> "training step refused"
            [] Len(st.outs) # Len(e.probes) /\ (st.outs # <<>> \/ k = Len(e.steps)) -> "record"
            [] \E p \in 1..Len(st.outs) : ~ActsOk(p) -> "network after a training step"
            [] OTHER -> History(e, net2, k + 1)

(*------------------------------ batch measures ---------------------------*)
Abs64(x) == IF x < 0 THEN -x ELSE x
SqOf(t, p) == LS!SqSum(t, p)
(* cross entropy of integers times 1024, as far as it is not an integer by  *)
(* the fixed-point part                                                     *)
Ent(t, p) ==
  LET n == TLCEval([k \in 1..Len(p) |-> p[k][1] * p[k][1] + p[k][2] * p[k][2]])
      m == LS!MaxI(n)
      ex == TLCEval([k \in 1..Len(p) |-> IF m - n[k] > 30 THEN 0 ELSE A!FExpNeg((m - n[k]) * FB)])
      ln == A!FLn(LS!SumI(ex))
  IN LS!SumI(TLCEval([k \in 1..Len(p) |-> t[k][1] * (m - n[k])])) * 1024
     + (LS!SumI([k \in 1..Len(t) |-> t[k][1]]) * ln) \div 16384
MeasureVerdict(e) ==
  LET b == Len(e.xs)
      p == TLCEval([k \in 1..b |-> E!FlatIO(E!Predict(e.net, e.xs[k]))])
      t == TLCEval([k \in 1..b |-> E!FlatIO(e.ts[k])])
      ms == 64 * AddUp([k \in 1..b |-> SqOf(t[k], p[k])])
      ce == AddUp([k \in 1..b |-> Ent(t[k], p[k])])
      hits == AddUp([k \in 1..b |-> IF LS!Class(p[k]) = LS!Class(t[k]) THEN 1 ELSE 0])
      Around(r, w, tol) == Ok(r) /\ r.v <= 1000000000 /\ r.v >= -1000000000 /\ Abs64(r.v - w) <= tol
  IN CASE ~Around(e.ms, ms, 2 + ms \div 50000) -> "mean square loss of a batch"
       [] ~Around(e.ce, ce, 4 + b + Abs64(ce) \div 20000) -> "cross entropy loss of a batch"
       [] e.acc.t # "none" /\ ~Around(e.acc, hits * 4096, 2) -> "accuracy of a batch"
       [] OTHER -> "ok"

Verdict(e) ==
  CASE e.ev = "infer"   -> InferVerdict(e)
    [] e.ev = "empty"   -> IF \A k \in 1..Len(e.rs) : Failed(e.rs[k]) THEN "ok" ELSE "a network without layers answered"
    [] e.ev = "train"   -> TrainVerdict(e)
    [] e.ev = "history" -> IF ~SameShape(e) THEN "training changed the architecture" ELSE History(e, e.net, 1)
    [] e.ev = "small"   -> SmallVerdict(e)
    [] e.ev = "measure" -> MeasureVerdict(e)

Init == l \in 1..NEvents /\ v = "todo"
Next == v = "todo" /\ l' = l /\ v' = Verdict(Trace[l])
Accepted == v \in {"todo", "ok", "known"}
=============================================================================
