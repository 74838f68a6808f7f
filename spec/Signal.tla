------------------------------- MODULE Signal -------------------------------
(***************************************************************************)
(* Generated signals: all numbers of a point are drawn in turn from one    *)
(* generator state.  A point is the number of waves, three draws per wave  *)
(* (amplitude, frequency, phase), and four draws per pair of samples (two  *)
(* for the sizes of the noise, one direction for each sample).             *)
(* Fixed point; signals before scaling are kept at a quarter.              *)
(***************************************************************************)
EXTENDS Weights, TLC

MaxWaves == 8
Waves(s) == Index(Draw(s), MaxWaves) + 1         \* number of waves of the point started at state s
Pairs(samples) == (samples + 1) \div 2
Used(s, samples) == 1 + 3 * Waves(s) + 4 * Pairs(samples)

Tenth == FRat(1, 10)
OneToTen(u) == FMul(u, FRat(9, 10)) + Tenth      \* one order of magnitude, up to one
Ampl(s, w)  == OneToTen(U(Ahead(s, 3 * w - 1)))
Freq(s, w)  == OneToTen(U(Ahead(s, 3 * w)))
Phase(s, w) == FMul(TWOPI, U(Ahead(s, 3 * w + 1)))

(* k-th sample time (from 0): samples cover [0, 4 pi) *)
Time(k, samples) == ((2 * TWOPI) \div samples) * k + (((2 * TWOPI) % samples) * k) \div samples
Wave(a, w, p, t) == LET sc == FSinCos(FMul(w, t) + p) IN <<FMul(a, sc[2]) \div 4, FMul(a, sc[1]) \div 4>>
Raw(s, samples) ==
  LET n == Waves(s)
      par == TLCEval([w \in 1..n |-> <<Ampl(s, w), Freq(s, w), Phase(s, w)>>])
      RECURSIVE sum(_, _)
      sum(w, t) == IF w = 0 THEN FCZero ELSE FCAdd(sum(w - 1, t), Wave(par[w][1], par[w][2], par[w][3], t))
  IN TLCEval([k \in 1..samples |-> sum(n, Time(k - 1, samples))])
(* doubled as long as it is small, which the scaling takes back *)
RECURSIVE Grown(_, _)
Grown(v, n) == IF n = 0 \/ \E k \in 1..Len(v) : FAbs(v[k][1]) >= FB \div 2 \/ FAbs(v[k][2]) >= FB \div 2 THEN v
               ELSE Grown(TLCEval([k \in 1..Len(v) |-> <<2 * v[k][1], 2 * v[k][2]>>]), n - 1)

RECURSIVE MaxNorm(_, _)
MaxNorm(v, n) == IF n = 0 THEN 0 ELSE LET m == MaxNorm(v, n - 1)  x == FCNorm(v[n]) IN IF x > m THEN x ELSE m
Peak(raw) == MaxNorm(raw, Len(raw))
Scaled(v, peak) == TLCEval([k \in 1..Len(v) |-> <<FDiv(v[k][1], peak), FDiv(v[k][2], peak)>>])
Clean(raw) == LET g == Grown(raw, 10)  peak == Peak(g) IN Scaled(g, peak)


(* state before the draws of the pair of sample k (from 1) *)
NoiseFrom(s, k) == Ahead(s, 1 + 3 * Waves(s) + 4 * ((k - 1) \div 2))
(* standard deviation: thr / 64 times (1 + modulus / 20) *)
Std(thr, z) == LET b == thr * (FB \div 64) IN b + FMul(b, FCNorm(z)) \div 20
(* the noise on sample k with value z, a normal number times the standard    *)
(* deviation in a random direction                                           *)
Normal(s, k) ==
  LET q == NoiseFrom(s, k)
      r == FSqrt(-2 * LnU(Draw(q)))
      d == Dir(Ahead(q, 2))
  IN FMul(r, IF k % 2 = 1 THEN d[1] ELSE d[2])
Noise(s, k, thr, z) ==
  LET q == NoiseFrom(s, k)
      d == Dir(Ahead(q, IF k % 2 = 1 THEN 3 ELSE 4))
  IN FCScale(FMul(Normal(s, k), Std(thr, z)), d)
(* the logarithm is well conditioned in single precision *)
Steady(s, k) == LET a == Draw(NoiseFrom(s, k)) IN a # 0 /\ a < 2145386495
=============================================================================
