------------------------------ MODULE MC_Grad ------------------------------
(***************************************************************************)
(* Bounded exhaustive check that the derivative rules of the layers are    *)
(* the derivatives of the loss, from first principles: the squared error   *)
(* of a network is a quadratic polynomial in each single real parameter    *)
(* (as long as no ReLU changes sides), so the central difference with step *)
(* one is exactly the partial derivative.                                  *)
(***************************************************************************)
EXTENDS Exact, FiniteSets, Json

CONSTANTS Vals,       \* values of weights
          BVals,      \* values of biases
          Nets        \* which families to explore

ValsQ == {<<1, 2>>, <<-1, 1>>, <<2, -1>>}
ValsT == {<<1, 2>>, <<-1, 1>>, <<2, -1>>, <<0, 3>>, <<-2, -3>>, <<4, 0>>}
BValsQ == {<<1, -1>>, <<-3, 2>>}
BValsT == {<<1, -1>>, <<-3, 2>>, <<5, 5>>}

VARIABLES net, x, t, phase

W22(a, b, c, d) == <<<<a, b>>, <<c, d>>>>
D(w, b, a) == [kind |-> "dense", w |-> w, b |-> b, act |-> a]
C(k, b, a) == [kind |-> "conv", k |-> k, b |-> b, act |-> a]
Fl == [kind |-> "flatten"]
Ones(r, c) == [i \in 1..r |-> [j \in 1..c |-> GOne]]
R(br, bc) == [kind |-> "reduce", bs |-> <<br, bc>>, f |-> "sum", kern |-> Ones(br, bc)]

ActsE == {"None", "RITReLU", "ZReLU"}
c1 == <<2, -1>>  c2 == <<-1, 3>>  c3 == <<1, 1>>  c4 == <<-2, 1>>  c5 == <<3, 0>>  c6 == <<0, -2>>

(* families of small networks with free parameters v, w *)
Fam(n) ==
  CASE n = "d1d2" -> { << D(<<<<v, c1>>, <<c2, w>>>>, <<b, c3>>, a1), D(<<<<c4, v>>>>, <<b>>, a2) >> :
                         v \in Vals, w \in Vals, b \in BVals, a1 \in ActsE, a2 \in ActsE }
    [] n = "cfd"  -> { << C(<<<< <<<<v, c1>>, <<w, c4>>>> >>, << <<<<c2, w>>, <<c5, v>>>> >>>>, <<b, c3>>, a1),
                          Fl, D(<<<<c1, v, c3, c6>>>>, <<b>>, "None") >> :
                         v \in Vals, w \in Vals, b \in BVals, a1 \in ActsE }
    [] n = "ccf"  -> { << C(<<<< <<<<v, c1>>>> >>, << <<<<w, c2>>>> >>>>, <<b, c4>>, a1),
                          C(<<<< <<<<c3>>, <<v>>>>, <<<<w>>, <<c6>>>> >>>>, <<b>>, a2), Fl >> :
                         v \in Vals, w \in Vals, b \in BVals, a1 \in ActsE, a2 \in ActsE }
    [] n = "crf"  -> { << C(<<<< <<<<v>>>> >>>>, <<b>>, a1), R(1, 3), C(<<<< <<<<w>>>> >>>>, <<c3>>, a2), R(3, 1), Fl >> :
                         v \in Vals, w \in Vals, b \in BVals, a1 \in ActsE, a2 \in ActsE }
Inputs(n) ==
  CASE n = "d1d2" -> { Scal(<<p, c5>>) : p \in {c1, c6} }
    [] n = "cfd"  -> { Maps(<< <<<<c1, c2, p>>, <<c4, c5, c3>>>> >>) : p \in {c3, c6} }
    [] n = "ccf"  -> { Maps(<< <<<<c1, p>>, <<c2, c4>>>> >>) : p \in {c5, c6} }
    [] n = "crf"  -> { Maps(<< <<<<c1, c2, c3>>, <<c4, c5, c6>>, <<c2, c1, p>>>> >>) : p \in {c4, c6} }

TLen(n, nt, xx) == Len(FlatIO(Predict(nt, xx)))

Init ==
  /\ \E n \in Nets : net \in Fam(n) /\ x \in Inputs(n)
  /\ t = c2 /\ phase = "start"

Targ(p) == [i \in 1..Len(p) |-> IF i % 2 = 1 THEN t ELSE c3]
Loss(nt) == LET p == FlatIO(Predict(nt, x)) IN SqErr(Targ(p), p)

(* which side of each kink every pre-activation is on *)
Sg(v) == IF v > 0 THEN 1 ELSE IF v < 0 THEN -1 ELSE 0
Pre(l, y) == CASE l.kind = "dense" -> DensePre(l, y.v)
               [] l.kind = "conv"  -> FlattenSeq([f \in 1..Len(l.k) |-> Flat(ConvPre(l, y.v, f))])
               [] OTHER -> <<>>
Sides(nt) == LET a == Acts(nt, x)
             IN [n \in 1..Len(nt) |->
                  IF nt[n].kind \in {"dense", "conv"} /\ nt[n].act # "None"
                  THEN LET q == Pre(nt[n], a[n]) IN [i \in 1..Len(q) |-> <<Sg(q[i][1]), Sg(q[i][2])>>]
                  ELSE <<>>]
NoKink(s) == \A n \in DOMAIN s : \A i \in DOMAIN s[n] : s[n][i][1] # 0 /\ s[n][i][2] # 0

(* moving one parameter *)
Move(l, part, i, d) ==
  IF part = "b" THEN [l EXCEPT !.b[i] = GAdd(@, d)]
  ELSE IF l.kind = "dense"
       THEN LET c == NCols(l.w) IN [l EXCEPT !.w[(i - 1) \div c + 1][((i - 1) % c) + 1] = GAdd(@, d)]
       ELSE LET kr == NRows(l.k[1][1])  kc == NCols(l.k[1][1])  nc == Len(l.k[1])
                m == (i - 1) \div (kr * kc)  e == (i - 1) % (kr * kc)
            IN [l EXCEPT !.k[m \div nc + 1][(m % nc) + 1][e \div kc + 1][(e % kc) + 1] = GAdd(@, d)]
MoveN(n, part, i, d) == [net EXCEPT ![n] = Move(net[n], part, i, d)]

(* twice the Wirtinger derivative by central differences, if the sides agree *)
Diff(n, part, i, g) ==
  LET base == Sides(net)
      up == MoveN(n, part, i, GOne)   dn == MoveN(n, part, i, <<-1, 0>>)
      iu == MoveN(n, part, i, GI)     id == MoveN(n, part, i, <<0, -1>>)
  IN ( Sides(up) = base /\ Sides(dn) = base /\ Sides(iu) = base /\ Sides(id) = base )
     => /\ 4 * g[1] = Loss(up) - Loss(dn)
        /\ -4 * g[2] = Loss(iu) - Loss(id)

GradientIsDerivative ==
  phase = "done" =>
    LET s == Sides(net)
        g == NetBack(net, x, LAMBDA p : DSq(Targ(p), p))
    IN NoKink(s) =>
         \A n \in 1..Len(net) : net[n].kind \in {"dense", "conv"} =>
           /\ \A i \in 1..Len(g[n].dw) : Diff(n, "w", i, g[n].dw[i])
           /\ \A i \in 1..Len(g[n].db) : Diff(n, "b", i, g[n].db[i])

(* networks away from the kinks are printed, to be run on the code *)
Next ==
  /\ phase = "start" /\ phase' = "done" /\ UNCHANGED <<net, x, t>>
  /\ NoKink(Sides(net)) =>
       LET a == Acts(net, x)
       IN PrintT(ToJson([net |-> net, x |-> x, acts |-> a, t |-> Targ(FlatIO(a[Len(a)]))]))
=============================================================================
