------------------------------ MODULE MC_Sched ------------------------------
(***************************************************************************)
(* Two threads calling one shared network at the same time.  A call passes *)
(* through the blocks of the pooling layers one after the other; its       *)
(* intermediate values are its own, the network is only read.  Every       *)
(* interleaving is explored, and printed to be forced on the code.         *)
(***************************************************************************)
EXTENDS Exact, TLC, Json

CONSTANTS Kinds          \* calls of the two threads
VARIABLES done, order, calls

Net == <<[kind |-> "reduce", bs |-> <<1, 2>>, f |-> "sum", kern |-> <<<<<<1, 0>>>>>>],
         [kind |-> "conv", k |-> <<<<<<<<<<2, 0>>>>>>, <<<<<<0, 2>>>>>>>>>>, b |-> <<<<1, 1>>>>, act |-> "None"],
         [kind |-> "reduce", bs |-> <<1, 2>>, f |-> "wsum", kern |-> <<<<<<1, 0>>>>>>],
         [kind |-> "flatten"]>>
X == <<Maps(<<<<<<<<1, 0>>, <<0, 1>>, <<2, 2>>, <<3, -1>>>>>>, <<<<<<-1, 0>>, <<4, 1>>, <<0, 2>>, <<1, -1>>>>>>>>),
       Maps(<<<<<<<<0, 0>>, <<5, 1>>, <<-2, 2>>, <<1, 1>>>>>>, <<<<<<2, 0>>, <<0, 1>>, <<3, 2>>, <<1, 0>>>>>>>>)>>

(* the blocks a call passes: the four of the first layer, then the last one *)
Blocks == 5
Map(n) == (n - 1) \div 2 + 1
Pair(n) == 2 * ((n - 1) % 2) + 1
FirstBlock(x, n) == LET row == x.v[Map(n)][1] IN EBlock("sum", <<row[Pair(n)], row[Pair(n) + 1]>>)
Pooled(d) == Maps(<<<<<<d[1], d[2]>>>>, <<<<d[3], d[4]>>>>>>)
LastBlock(d) == Out(Net[3], Out(Net[2], Pooled(d))).v[1][1][1]

Init == done = <<<<>>, <<>>>> /\ order = <<>> /\ calls \in Kinds \X Kinds
Pass(t) ==
  LET d == done[t]  n == Len(d) + 1
      o == Append(order, t)
  IN /\ n <= Blocks
     /\ done' = [done EXCEPT ![t] = Append(d, IF n < Blocks THEN FirstBlock(X[t], n) ELSE LastBlock(d))]
     /\ order' = o /\ UNCHANGED calls
     /\ (Len(o) = 2 * Blocks => PrintT(ToJson([order |-> o, a |-> calls[1], b |-> calls[2]])))
Next == \E t \in 1..2 : Pass(t)

(* a finished call has the result it has alone *)
Alone == \A t \in 1..2 : Len(done[t]) = Blocks => <<done[t][Blocks]>> = Predict(Net, X[t]).v
=============================================================================
