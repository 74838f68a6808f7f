----------------------------- MODULE MC_Weights -----------------------------
(***************************************************************************)
(* Laws of the initialisation formulas on a grid of generator states:      *)
(* uniform methods stay within their bound and reach it, the normal ones   *)
(* have the stated second moment, directions have unit modulus.            *)
(***************************************************************************)
EXTENDS Weights, TLC

CONSTANTS Grid, Units
VARIABLES job, done

Methods == {"Uniform", "Xavier", "XavierGlorotU", "HeInit", "XavierGlorotN"}
Jobs == [m : Methods, p : {"f32", "f64"}, n : Units, a : 0..(Grid - 1)]
(* the states in the middle of each of the grid's steps *)
At(k) == k * (M \div Grid) + M \div (2 * Grid)

Bounded(j) ==
  LET s == Before(At(j.a))
      z == Weight(j.m, j.p, j.n, s)
      r == Radius(j.m, j.p, j.n, s)
      d == Dir(Ahead(s, Draws(j.m)))
  IN /\ FAbs(FCNormSq(d) - FB) <= 64
     /\ Draws(j.m) = 2 =>
          /\ FAbs(r) <= Spread(j.m, j.n) + 16
          /\ (j.p = "f32") => r >= 0
          /\ FAbs(r) + FDiv(Spread(j.m, j.n), FInt(Grid)) >= FMul(Spread(j.m, j.n),
                IF j.p = "f32" THEN U(At(j.a)) ELSE FAbs(2 * U(At(j.a)) - FB))
     /\ FCNormSq(z) <= FSq(r) + 200

(* the finer formulas agree with the coarser ones *)
Finer(j) ==
  (j.p = "f64" /\ Tight(j.m, Before(At(j.a)))) =>
     LET s == Before(At(j.a))  z == Weight(j.m, j.p, j.n, s)  w == WWeight(j.m, j.n, s)
     IN FAbs(z[1] - w[1][1]) <= 200 /\ FAbs(z[2] - w[2][1]) <= 200

(* second moment of the Box-Muller product over one row of the grid: the mean *)
(* of cos^2 over the second draw is one half, so the row mean is -ln u        *)
RECURSIVE CosSum(_)
CosSum(k) == IF k = 0 THEN 0 ELSE CosSum(k - 1) + FSq(Dir(At(k - 1))[1])
Moment(j) ==
  (j.m = "HeInit" /\ j.a = 0) =>
     FAbs(CosSum(Grid) \div Grid - FB \div 2) <= 64
(* and the mean of -ln u over the first draw is one *)
RECURSIVE LnSum(_)
LnSum(k) == IF k = 0 THEN 0 ELSE LnSum(k - 1) - LnU(At(k - 1)) \div Grid
LogMean(j) == (j.m = "HeInit" /\ j.a = 0) => FAbs(LnSum(Grid) - FB) <= FB \div Grid

Init == job \in Jobs /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ job' = job
        /\ Assert(Bounded(job) /\ Finer(job) /\ Moment(job) /\ LogMean(job), <<"law", job>>)
=============================================================================
