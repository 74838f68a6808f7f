-------------------------------- MODULE Reads --------------------------------
(***************************************************************************)
(* Reading and training a network.  Training makes a new version of the    *)
(* network; a read is a function of the version and its arguments alone.   *)
(* What has been read so far is kept in a memo from (version, call) to     *)
(* result, and any later read of the same kind has to agree with it.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

NoReads == <<>>                    \* the function with the empty domain
Known(memo, k) == k \in DOMAIN memo
Agrees(memo, k, r) == Known(memo, k) => memo[k] = r
Remember(memo, k, r) == IF Known(memo, k) THEN memo ELSE memo @@ (k :> r)
=============================================================================
