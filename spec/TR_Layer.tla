------------------------------ MODULE TR_Layer ------------------------------
(***************************************************************************)
(* Recorded outputs, derivatives and adjustments of single layers.         *)
(***************************************************************************)
EXTENDS NetTrace

VARIABLES l, v

Ins(y, x) == IF x.io = "s" THEN <<"s", Len(x.v)>> ELSE <<"m", Len(x.v)>>
Weights(y) ==
  CASE y.kind = "dense" -> E!Params(y) - Len(y.b)
    [] y.kind = "conv" -> E!Params(y) - Len(y.b)
    [] OTHER -> 0
Biases(y) == IF y.kind \in {"dense", "conv"} THEN Len(y.b) ELSE 0
RepOk(e, w) ==
  /\ Ok(e.rep)
  /\ e.rep.v.ins = Ins(e.l, e.x) /\ e.rep.v.outs = Ins(e.l, w)
  /\ e.rep.v.pw = Weights(e.l) /\ e.rep.v.pb = Biases(e.l)

OutVerdict(e) ==
  LET w == Out(e, e.l, e.x)  tol == Tol(e, 300, 100)
  IN CASE Delicate(e, e.l, e.x) -> "ok"
       [] ~IoIs(e.mode, e.r, w, tol) -> "output of a " \o e.l.kind \o " layer"
       [] ~IoIs(e.mode, e.r2, w, tol) -> "output of a " \o e.l.kind \o " layer called directly"
       [] ~RepOk(e, w) -> "reported shape of a " \o e.l.kind \o " layer"
       [] OTHER -> "ok"

RefusedVerdict(e) ==
  IF Accepts(e.l, e.x) THEN "input is acceptable (bad event)"
  ELSE IF Failed(e.r) /\ Failed(e.r2) THEN "ok" ELSE "unsuitable input of a " \o e.l.kind \o " layer is not refused"

Conj(s) == [k \in 1..Len(s) |-> <<s[k][1], -s[k][2]>>]
BackOk(e, r, w, tol) ==
  /\ Ok(r)
  /\ VecOk(e.mode, r.v.dw, w.dw, tol) /\ VecOk(e.mode, r.v.db, w.db, tol)
  /\ VecOk(e.mode, r.v.dx, w.dx, tol) /\ VecOk(e.mode, r.v.dc, Conj(w.dx), tol)
BackVerdict(e) ==
  LET w == IF e.mode = "e" THEN E!LayerBack(e.l, e.x, e.g) ELSE A!LayerBack(e.l, e.x, e.g)
      tol == Tol(e, 2000, 600)
  IN CASE Delicate(e, e.l, e.x) -> "ok"
       [] ~BackOk(e, e.r, w, tol) -> "derivatives of a " \o e.l.kind \o " layer"
       [] ~BackOk(e, e.r2, w, tol) -> "derivatives of a " \o e.l.kind \o " layer called directly"
       [] OTHER -> "ok"

(* a history of adjustments; every step is refused or moves the parameters *)
Fits(y, st) == Len(st.dw) = Weights(y) /\ Len(st.db) = Biases(y)
RECURSIVE Steps(_, _, _)
Steps(e, y, k) ==
  IF k > Len(e.steps) THEN "ok"
  ELSE LET st == e.steps[k]
           y2 == IF Fits(y, st) THEN E!Adjust(y, st.dw, st.db, E!M1) ELSE y
           bad == {n \in 1..Len(st.probes) : ~IoIs("q", st.probes[n].r, E!Out(y2, st.probes[n].x), 0)}
       IN CASE Fits(y, st) /\ ~Ok(st.r) -> "fitting adjustment of a " \o y.kind \o " layer refused"
            [] ~Fits(y, st) /\ ~Failed(st.r) -> "adjustment of the wrong length accepted by a " \o y.kind \o " layer"
            [] bad # {} -> "parameters of a " \o y.kind \o " layer after an adjustment"
            [] OTHER -> Steps(e, y2, k + 1)

Verdict(e) ==
  CASE e.ev = "out"     -> OutVerdict(e)
    [] e.ev = "refused" -> RefusedVerdict(e)
    [] e.ev = "back"    -> BackVerdict(e)
    [] e.ev = "adjust"  -> Steps(e, e.l, 1)
    [] OTHER            -> "a layer could not be created"

Init == l \in 1..NEvents /\ v = "todo"
Next == v = "todo" /\ l' = l /\ v' = Verdict(Trace[l])
Accepted == v \in {"todo", "ok", "known"}
=============================================================================
