------------------------------- MODULE TR_Loss -------------------------------
(***************************************************************************)
(* Recorded losses and loss derivatives of vectors and maps.               *)
(***************************************************************************)
EXTENDS Loss, Events

VARIABLES l, v

Quarter(z) == <<z[1] * (FB \div 4), z[2] * (FB \div 4)>>
SumAbs(t) == SumI([k \in 1..Len(t) |-> Abs(t[k])])
VecNear(r, e, tol) == Len(r) = Len(e) /\ \A k \in 1..Len(e) : FCNear(r[k], e[k], tol)

Right(e) ==
  CASE e.ev = "mse"  -> LET w == 256 * SqSum(e.t, e.pr)
                        IN /\ Sane(e.r.v.a) /\ Abs(e.r.v.a - w) <= 1 + w \div 500000
                           /\ (e.p = "f64" => Abs(e.r.v.f) <= 16)
    [] e.ev = "dmse" -> e.r.v = DSqSum(e.t, e.pr)
    [] e.ev = "ce"   -> Near(e.r.v, Entropy(e.t, Map(Quarter, e.pr)), 100 + 200 * SumAbs(e.t))
    [] e.ev = "dce"  -> VecNear(e.r.v, DEntropy(e.t, Map(Quarter, e.pr)), 100 + 300 * SumAbs(e.t))
    [] e.ev = "wce"  -> WEntropyIs(e.r.v, e.t, e.pr, 100)
    [] e.ev = "dwce" -> LET w == WDEntropy(e.t, e.pr)
                        IN Len(e.r.v) = Len(w) /\ \A k \in 1..Len(w) : \A j \in 1..2 : WNear(e.r.v[k][j], w[k][j], 100)
    [] e.ev = "hce"  -> LET w == 256 * HugeEntropy(e.t, e.pr)
                        IN Sane(e.r.v) /\ Abs(e.r.v - w) <= 8 * (1 + SumAbs(e.t)) + Abs(w) \div 100000
    [] e.ev = "dhce" -> LET w == DHuge(e.t, e.pr)  c == HugeTies(e.pr)
                        IN /\ Len(e.r.v) = Len(e.pr)
                           /\ \A k \in 1..Len(w) : \A j \in 1..2 :
                                /\ Sane(e.r.v[k][j])
                                /\ Abs(c * e.r.v[k][j] - 256 * w[k][j]) <= c + Abs(w[k][j]) \div 500

Verdict(e) ==
  CASE e.ev = "mixed" -> IF Failed(e.r) THEN "ok" ELSE "different kinds not refused: " \o e.what
    [] Panicked(e.r) -> "panic in " \o e.ev
    [] Failed(e.r) -> "refused " \o e.ev
    [] OTHER -> IF Right(e) THEN "ok" ELSE "value of " \o e.ev

Init == l \in 1..NEvents /\ v = "todo"
Next == v = "todo" /\ l' = l /\ v' = Verdict(Trace[l])
Accepted == v \in {"todo", "ok", "known"}
=============================================================================
