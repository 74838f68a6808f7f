----------------------------- MODULE MC_Signal -----------------------------
(***************************************************************************)
(* Laws of the specified signals from seeds with every number of waves;    *)
(* the seeds are printed and used on the code.                             *)
(***************************************************************************)
EXTENDS Signal, TLC, Json

CONSTANTS Samples, Steps         \* Steps: starting states per number of waves
VARIABLES job, done

Jobs == [w : 1..MaxWaves, n : Samples, j : 0..(Steps - 1)]
Width == M \div MaxWaves
(* a state whose successor selects w waves *)
Start(job_) == Before((job_.w - 1) * Width + (Width \div Steps) * job_.j + 7 * job_.n)
Tol == 60
Laws(b) ==
  LET s == Start(b)
      raw == Raw(s, b.n)
      peak == Peak(raw)
      c == Clean(raw)
      near == Tol * (FB \div (4 * peak) + 1)       \* a small peak is less precise
  IN /\ Waves(s) = b.w
     (* scaled to a largest modulus of one *)
     /\ \A k \in 1..b.n : FCNorm(c[k]) <= FB + near
     /\ \E k \in 1..b.n : FCNorm(c[k]) >= FB - near
     (* a single wave has the same modulus everywhere *)
     /\ (b.w = 1) => \A k \in 1..b.n : FAbs(FCNorm(raw[k]) - Ampl(s, 1) \div 4) <= Tol
     (* sizes and frequencies within one order of magnitude *)
     /\ \A w \in 1..b.w : Ampl(s, w) \in (Tenth - 1)..(FB + 1) /\ Freq(s, w) \in (Tenth - 1)..(FB + 1)
                          /\ Phase(s, w) \in 0..(TWOPI + 1)
     /\ \A k \in 1..b.n : Time(k - 1, b.n) \in 0..(2 * TWOPI - 1)
     (* no noise at level zero; otherwise as large as the normal number says *)
     /\ \A k \in 1..b.n : /\ Noise(s, k, 0, c[k]) = FCZero
                          /\ FAbs(FCNormSq(Noise(s, k, 64, c[k])) - FSq(FMul(Normal(s, k), FB + FCNorm(c[k]) \div 20))) <= 20 * Tol
     (* the two samples of a pair share one radius: r^2 = n1^2 + n2^2 *)
     /\ \A k \in 1..b.n : (k % 2 = 1 /\ k < b.n) =>
          FAbs(FSq(Normal(s, k)) + FSq(Normal(s, k + 1)) + 2 * LnU(Draw(NoiseFrom(s, k)))) <= 40 * Tol
     /\ PrintT(ToJson([seed |-> LimbsOf(s), samples |-> b.n]))
Init == job \in Jobs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ job' = job /\ Assert(Laws(job), <<"law", job>>)
=============================================================================
