------------------------------ MODULE MC_Reads ------------------------------
(***************************************************************************)
(* Histories of reads and training steps on a small network over Gaussian  *)
(* integers.  Each complete history is printed and replayed on the code.   *)
(***************************************************************************)
EXTENDS Exact, Reads, Json

CONSTANTS Depth, Echo    \* Echo: the last call repeats the first one
VARIABLES net, ver, memo, hist, kept

Net0 == <<[kind |-> "dense", w |-> <<<<<<2, 0>>, <<0, 2>>>>, <<<<-2, 2>>, <<2, -4>>>>>>, b |-> <<<<1, -1>>, <<3, 1>>>>, act |-> "RITReLU"],
          [kind |-> "dense", w |-> <<<<<<2, -2>>, <<4, 0>>>>>>, b |-> <<<<-1, 1>>>>, act |-> "None"]>>
Xs == <<Scal(<<<<1, 2>>, <<-1, 1>>>>), Scal(<<<<0, 3>>, <<2, -1>>>>)>>
Ts == <<<<<<1, 0>>>>, <<<<0, -1>>>>>>
Kinds == {"forward", "acts", "tap", "ms", "ce", "acc", "shape"}

(* the results stand for what the calls return; the two losses and the       *)
(* accuracy are functions of the predictions                                 *)
Read(N, k, n) ==
  CASE k \in {"forward", "ce", "acc"} -> Predict(N, Xs[n])
    [] k = "acts"  -> Acts(N, Xs[n])
    [] k = "tap"   -> <<Acts(N, Xs[n])[2], N[2]>>
    [] k = "ms"    -> GSub(Ts[n][1], Predict(N, Xs[n]).v[1])
    [] k = "shape" -> <<Params(N[1]), Params(N[2])>>

Trained(N, n) == Step(N, <<Xs[n]>>, LAMBDA p, pr : DSq(Ts[n], pr), <<2, 0>>, M1)

Init == net = Net0 /\ ver = 0 /\ memo = NoReads /\ hist = <<>> /\ kept = Net0
Put(c) == LET h == Append(hist, c)
          IN /\ hist' = h
             /\ (Len(h) = Depth => PrintT(ToJson([calls |-> h])))
CallTo(k, n) ==
  /\ Put([kind |-> k, n |-> n - 1])
  /\ LET r == Read(net, k, n) IN
       /\ Assert(Agrees(memo, <<ver, k, n>>, r), <<"a read changed its result", hist, k, n>>)
       /\ memo' = Remember(memo, <<ver, k, n>>, r)
  /\ UNCHANGED <<net, ver, kept>>
Train(n) ==
  /\ ver < 1
  /\ Put([kind |-> "train", n |-> n - 1])
  /\ net' = Trained(net, n) /\ kept' = net' /\ ver' = ver + 1 /\ UNCHANGED memo
Allowed(k, n) == (Echo /\ Len(hist) = Depth - 1 /\ Depth > 1 /\ hist[1].kind # "train")
                   => (k = hist[1].kind /\ n - 1 = hist[1].n)
Next == /\ Len(hist) < Depth
        /\ \E n \in 1..2 : \/ \E k \in Kinds : Allowed(k, n) /\ CallTo(k, n)
                           \/ Allowed("train", n) /\ Train(n)

(* only training changes the network *)
Unchanged == net = kept
=============================================================================
