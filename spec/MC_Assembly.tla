---------------------------- MODULE MC_Assembly ----------------------------
(***************************************************************************)
(* All histories of Depth attempts with layers of a small catalogue; each  *)
(* history is printed, to be run on the code.                              *)
(***************************************************************************)
EXTENDS Assembly, TLC, Json

CONSTANTS Depth, Cat
VARIABLES net, hist

(* kind, inputs, outputs *)
CatQ == {<<"dense", 1, 2>>, <<"dense", 2, 1>>, <<"dense", 2, 0>>, <<"conv", 1, 2>>, <<"conv", 2, 2>>,
         <<"conv", 2, 0>>, <<"reduce", 2, 2>>, <<"flatten", 2, 2>>}
CatT == CatQ \cup {<<"dense", 3, 3>>, <<"conv", 3, 1>>, <<"reduce", 1, 1>>, <<"flatten", 1, 1>>}

One == <<1, 0>>
LayerOf(c) ==
  IF c[3] = 0 THEN [kind |-> "nothing", ins |-> IF c[1] = "dense" THEN <<"s", c[2]>> ELSE <<"m", c[2]>>]
  ELSE CASE c[1] = "dense"   -> [kind |-> "dense", w |-> [i \in 1..c[3] |-> [j \in 1..c[2] |-> One]]]
         [] c[1] = "conv"    -> [kind |-> "conv", k |-> [i \in 1..c[3] |-> [j \in 1..c[2] |-> One]]]
         [] c[1] = "reduce"  -> [kind |-> "reduce", n |-> c[2]]
         [] c[1] = "flatten" -> [kind |-> "flatten", n |-> c[2], shape |-> <<1, 1>>]

Init == net = <<>> /\ hist = <<>>
Attempt(op, c) ==
  /\ net' = After(net, op, LayerOf(c))
  /\ hist' = Append(hist, [op |-> op, kind |-> c[1], a |-> c[2], b |-> c[3]])
  /\ Len(hist') = Depth => PrintT(ToJson([ops |-> hist']))
Next == Len(hist) < Depth /\ \E op \in {"add_input", "add"}, c \in Cat : Attempt(op, c)

Sound ==
  /\ Chained(net) /\ NoEmpty(net)
  /\ (net = <<>>) = (\A k \in 1..Len(hist) : hist[k].op = "add" \/ hist[k].b = 0)
(* a refused layer would be refused again, whatever was tried in between    *)
Refusal == \A op \in {"add_input", "add"}, c \in Cat :
  LET y == LayerOf(c) IN
    /\ (After(net, op, y) = net) = (Reasons(net, op, y) # {})
    /\ op = "add_input" /\ net # <<>> => "ExistentInput" \in Reasons(net, op, y)
=============================================================================
