------------------------------ MODULE Assembly ------------------------------
(***************************************************************************)
(* Building a network layer by layer.  A candidate is a layer, or          *)
(* [kind |-> "nothing", ins |-> shape] for one without units or filters.   *)
(* A shape is <<"s", count>> (scalars) or <<"m", count>> (maps).           *)
(***************************************************************************)
EXTENDS Integers, Sequences

Ins(y) ==
  CASE y.kind = "dense" -> <<"s", Len(y.w[1])>>
    [] y.kind = "conv"  -> <<"m", Len(y.k[1])>>
    [] y.kind = "nothing" -> y.ins
    [] OTHER -> <<"m", y.n>>
Outs(y) ==
  CASE y.kind = "dense"   -> <<"s", Len(y.w)>>
    [] y.kind = "conv"    -> <<"m", Len(y.k)>>
    [] y.kind = "reduce"  -> <<"m", y.n>>
    [] y.kind = "flatten" -> <<"s", y.n * y.shape[1] * y.shape[2]>>

(* the reasons for which an attempt may be refused; it is accepted exactly  *)
(* when there is none                                                       *)
Reasons(net, op, y) ==
  IF op = "add_input"
  THEN (IF net # <<>> THEN {"ExistentInput"} ELSE {})
       \cup (IF y.kind = "nothing" THEN {"MissingInitialization"} ELSE {})
  ELSE (IF net = <<>> THEN {"MissingInput"} ELSE {})
       \cup (IF y.kind = "nothing" THEN {"MissingInitialization"} ELSE {})
       \cup (IF net # <<>> /\ Outs(net[Len(net)]) # Ins(y) THEN {"IncompatibleIO"} ELSE {})
After(net, op, y) == IF Reasons(net, op, y) = {} THEN Append(net, y) ELSE net

(* what holds of every network that can be built *)
Chained(net) == \A k \in 1..(Len(net) - 1) : Outs(net[k]) = Ins(net[k + 1])
NoEmpty(net) == \A k \in 1..Len(net) : net[k].kind # "nothing"
=============================================================================
