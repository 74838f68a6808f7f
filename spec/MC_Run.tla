------------------------------- MODULE MC_Run -------------------------------
(***************************************************************************)
(* Whole runs: layers are created from a seed, then training steps, reads  *)
(* and evaluations follow.  Two runs take turns in every possible order;   *)
(* each of them ends with the results it has alone, which do not depend on *)
(* the reads either.  The pipelines are printed and run on the code.       *)
(***************************************************************************)
EXTENDS Exact, TLC, Json

CONSTANTS Depth, Seeds
VARIABLES pipe, runs       \* one pipeline; runs: [pc, start, seed, net, log] of both

Ops == {"train", "read", "eval"}
Shapes == {<<"dense", "dense">>, <<"dense", "dense", "dense">>, <<"conv", "reduce", "flatten", "dense">>}
Tails(n) == UNION {[1..k -> Ops] : k \in 1..n}

(* the generator of the model: a full cycle over 16 states *)
Draw(s) == (5 * s + 3) % 16
Num(s) == <<(s % 5) - 2, (s % 3) - 1>>

(* creation of a layer draws its numbers in turn *)
Dense1(s) == [l |-> [kind |-> "dense", w |-> <<<<Num(Draw(s))>>>>, b |-> <<Num(Draw(Draw(s)))>>, act |-> "None"], s |-> Draw(Draw(s))]
Conv1(s)  == [l |-> [kind |-> "conv", k |-> <<<<<<<<Num(Draw(s))>>>>>>>>, b |-> <<Num(Draw(Draw(s)))>>, act |-> "None"], s |-> Draw(Draw(s))]
Plain(l, s) == [l |-> l, s |-> s]
Create(k, s) ==
  CASE k = "dense"   -> Dense1(s)
    [] k = "conv"    -> Conv1(s)
    [] k = "reduce"  -> Plain([kind |-> "reduce", bs |-> <<1, 2>>, f |-> "sum", kern |-> <<<<<<1, 0>>>>>>], s)
    [] k = "flatten" -> Plain([kind |-> "flatten"], s)

Input(net) == IF net[1].kind = "dense" THEN Scal(<<<<1, -1>>>>) ELSE Maps(<<<<<<<<1, 0>>, <<0, 1>>>>>>>>)
Target == <<<<0, 1>>>>
Clip(z) == <<((z[1] + 3) % 7) - 3, ((z[2] + 3) % 7) - 3>>     \* keeps the model finite
ClipAll(l) == CASE l.kind = "dense" -> [l EXCEPT !.w = <<<<Clip(l.w[1][1])>>>>, !.b = <<Clip(l.b[1])>>]
                [] l.kind = "conv"  -> [l EXCEPT !.k = <<<<<<<<Clip(l.k[1][1][1][1])>>>>>>>>, !.b = <<Clip(l.b[1])>>]
                [] OTHER -> l
Trained(net) == LET n == Step(net, <<Input(net)>>, LAMBDA p, pr : DSq(Target, pr), <<1, 0>>, M1)
                IN TLCEval([k \in 1..Len(n) |-> ClipAll(n[k])])

Apply(r, op) ==
  CASE op = "eval"  -> [r EXCEPT !.log = Append(@, Predict(r.net, Input(r.net)).v)]
    [] op = "read"  -> IF Len(Acts(r.net, Input(r.net))) > 0 THEN r ELSE r
    [] op = "train" -> [r EXCEPT !.net = Trained(@)]
    [] OTHER -> LET c == Create(op, r.seed) IN [r EXCEPT !.net = Append(@, c.l), !.seed = c.s]

Fresh(s) == [pc |-> 0, start |-> s, seed |-> s, net |-> <<>>, log |-> <<>>]
Alone(p, s) == FoldLeft(LAMBDA r, op : Apply(r, op), Fresh(s), p)
NoReads(p) == SelectSeq(p, LAMBDA op : op # "read")

Init == /\ \E sh \in Shapes, t \in Tails(Depth) : pipe = sh \o t
        /\ \E s \in Seeds \X Seeds : runs = <<Fresh(s[1]), Fresh(s[2])>>
Go(t) == LET r == runs[t] IN
         /\ r.pc < Len(pipe)
         /\ runs' = [runs EXCEPT ![t] = [Apply(r, pipe[r.pc + 1]) EXCEPT !.pc = r.pc + 1]]
         /\ UNCHANGED pipe
         /\ ((t = 1 /\ r.pc = 0 /\ runs[2].pc = 0) => PrintT(ToJson([pipe |-> pipe])))
Next == \E t \in 1..2 : Go(t)

(* a run ends where its pipeline leads from its own seed, with or without the *)
(* reads                                                                      *)
Determined ==
  \A t \in 1..2 : LET r == runs[t] IN
    r.pc = Len(pipe) => [r EXCEPT !.pc = 0] = Alone(NoReads(pipe), r.start)
=============================================================================
