------------------------------ MODULE DataSet ------------------------------
(***************************************************************************)
(* A data set: a list of pairs.  A feature value is [io |-> "s", v] (a     *)
(* list of elements) or [io |-> "m", v] (a list of maps).                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

Empty == <<>>
AddPoint(d, x, t) == Append(d, [x |-> x, t |-> t])
Inputs(d) == [i \in 1..Len(d) |-> d[i].x]
Targets(d) == [i \in 1..Len(d) |-> d[i].t]
(* the exported lines: elements of the input, then of the target *)
Line(p) == p.x.v \o p.t.v
Export(d) == [i \in 1..Len(d) |-> Line(d[i])]
=============================================================================
