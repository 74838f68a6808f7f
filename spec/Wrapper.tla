------------------------------ MODULE Wrapper ------------------------------
(***************************************************************************)
(* Wrappers of scalar features ([io |-> "s"]) and of maps ([io |-> "m"]),  *)
(* and one-hot targets.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

Gives(x, kind) == x.io = kind          \* which contents can be had
SetAt(x, k, to) == IF Gives(x, "s") /\ k <= Len(x.v) THEN [x EXCEPT !.v[k] = to] ELSE x
Fits(n, k) == k < n
OneHot(n, k) == [j \in 1..n |-> IF j = k + 1 THEN <<1, 0>> ELSE <<0, 0>>]
=============================================================================
