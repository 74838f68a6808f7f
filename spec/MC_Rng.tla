------------------------------- MODULE MC_Rng -------------------------------
(***************************************************************************)
(* Laws of the generator and of its 32-bit arithmetic; prints the draws to *)
(* be executed: for every target state a seed that leads to it.            *)
(***************************************************************************)
EXTENDS Rng, TLC, Json

CONSTANTS MaxMod,          \* moduli for the exhaustive laws of the arithmetic
          Limits,          \* limits of index draws
          Edges            \* number of step boundaries visited per limit
VARIABLES job, done

(* states around the boundaries of the index steps and of the range *)
Targets(limit) ==
  LET w == M \div limit
      ks == {k \in (1..Edges) \cup {limit - k : k \in 0..(Edges - 1)} : k >= 1 /\ k <= limit}
  IN {t \in {0, 1, 2, M - 2, M - 1} \cup UNION {{k * w - 1, k * w} : k \in ks} : t >= 0 /\ t < M}

Jobs == [kind : {"mod"}, m : 2..MaxMod] \cup [kind : {"idx"}, m : Limits] \cup [kind : {"seed"}, m : 0..15]
        \cup [kind : {"jump"}, m : {0, 1, 2, 3, 4, 7, 10, 31, 100}]

ModLaws(m) ==
  \A a, b \in 0..(m - 1) :
    /\ MulMod(a, b, m) = (a * b) % m
    /\ AddMod(a, b, m) = (a + b) % m
    /\ ReduceTo(<<a, b, 1>>, 3, m) = ((((a * (65536 % m)) + b) % m) * (65536 % m) + 1) % m

IdxLaws(limit) ==
  LET w == M \div limit
  IN \A t \in Targets(limit) :
       LET s == Before(t)
       IN /\ s \in 0..(M - 1)
          /\ Draw(s) = t
          /\ Index(t, limit) \in 0..(limit - 1)
          /\ (t > 0) => Index(t, limit) - Index(t - 1, limit) \in {0, 1}
          /\ (Index(t, limit) < limit - 1) => (t \div w = Index(t, limit) /\ t % w \in 0..(w - 1))
          /\ PrintT(ToJson([seed |-> LimbsOf(s), limit |-> limit]))

(* adding the modulus in any limb position that represents a multiple of it *)
(* does not change the state: 2^31 = 1 mod M, so 2^(31 j) = 1               *)
SeedLaws(k) ==
  LET big == [i \in 1..8 |-> IF i <= k % 8 THEN 65535 ELSE IF k < 8 THEN 0 ELSE 43690]
      s == SeedState(big)
  IN /\ s \in 0..(M - 1)
     /\ SeedState(LimbsOf(s)) = s
     /\ SeedState(<<0, 0, 0, 0, 0, 0, 32767, 65535>>) = 0
     /\ SeedState(<<0, 0, 0, 0, 0, 0, 32768, 0>>) = 1
     /\ SeedState(<<0, 0, 0, 0, 16384, 0, 0, 0>>) = 1
     /\ PrintT(ToJson([seed |-> big, limit |-> 7]))

RECURSIVE Iterated(_, _)
Iterated(s, n) == IF n = 0 THEN s ELSE Iterated(TLCEval(Draw(s)), n - 1)
JumpLaws(n) ==
  \A s \in {0, 1, 12345, 65536, 1073741824, M - 2, M - 1} :
     Jump(s, n) = Iterated(s, n) /\ Jump(Jump(s, n), 12) = Jump(s, n + 12)

Init == job \in Jobs /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ job' = job
        /\ Assert(CASE job.kind = "mod"  -> ModLaws(job.m)
                    [] job.kind = "idx"  -> IdxLaws(job.m)
                    [] job.kind = "jump" -> JumpLaws(job.m)
                    [] job.kind = "seed" -> SeedLaws(job.m), <<"law", job>>)
=============================================================================
