------------------------------ MODULE NetTrace ------------------------------
(***************************************************************************)
(* Comparison of recorded layer and network results with the two           *)
(* arithmetics of the specification: mode "e" is exact over the Gaussian   *)
(* integers, mode "f" is fixed point with a tolerance.                     *)
(***************************************************************************)
EXTENDS Events

E == INSTANCE Exact
A == INSTANCE Approx

Out(e, l, x) == IF e.mode = "e" THEN E!Out(l, x) ELSE A!Out(l, x)
Acts(e, net, x) == IF e.mode = "e" THEN E!Acts(net, x) ELSE A!Acts(net, x)
Accepts(l, x) == E!Accepts(l, x)

(* a recorded number v stands for the specified number w *)
NumOk(m, v, w, tol) ==
  CASE m = "e" -> v = w
    [] m = "f" -> A!FCNear(v, w, tol)
    [] m = "q" -> \A k \in 1..2 :      \* recorded in quarters
                    /\ v[k] >= -1000000000 /\ v[k] <= 1000000000
                    /\ LET d == v[k] - 4 * w[k]  a == IF w[k] < 0 THEN -w[k] ELSE w[k]
                       IN d <= 1 + a \div 8192 /\ d >= -1 - a \div 8192
VecOk(m, v, w, tol) == Len(v) = Len(w) /\ \A k \in 1..Len(w) : NumOk(m, v[k], w[k], tol)
MatOk(m, v, w, tol) == Len(v) = Len(w) /\ \A k \in 1..Len(w) : VecOk(m, v[k], w[k], tol)
IoOk(m, v, w, tol) ==
  /\ v.io = w.io /\ Len(v.v) = Len(w.v)
  /\ IF w.io = "s" THEN VecOk(m, v.v, w.v, tol)
     ELSE \A k \in 1..Len(w.v) : MatOk(m, v.v[k], w.v[k], tol)
IoIs(m, r, w, tol) == Ok(r) /\ IoOk(m, r.v, w, tol)

Tol(e, f32, f64) == IF e.p = "f32" THEN f32 ELSE f64

(* the input x puts a pre-activation so close to a kink or a pole that      *)
(* rounding decides (mode "f" only: the exact data avoids kinks)            *)
Abs(x) == IF x < 0 THEN -x ELSE x
Close(act, q) ==
  CASE act \in {"RITReLU", "ZReLU"} -> Abs(q[1]) < 32768 \/ Abs(q[2]) < 32768
    [] act \in {"ModZ", "Cardioid"} -> Abs(q[1]) < 4194304 /\ Abs(q[2]) < 4194304
    [] OTHER -> FALSE
Pre(l, x) ==
  CASE l.kind = "dense" -> A!DensePre(l, x.v)
    [] l.kind = "conv"  -> A!FlattenSeq([f \in 1..Len(l.k) |-> A!Flat(A!ConvPre(l, x.v, f))])
    [] OTHER -> <<>>
Delicate(e, l, x) ==
  /\ e.mode = "f" /\ l.kind \in {"dense", "conv"} /\ Accepts(l, x)
  /\ LET q == TLCEval(Pre(l, x)) IN \E k \in 1..Len(q) : Close(l.act, q[k])
DelicateNet(e, net, x) ==
  e.mode = "f" /\ LET a == Acts(e, net, x) IN \E n \in 1..Len(net) : Delicate(e, net[n], a[n])
=============================================================================
