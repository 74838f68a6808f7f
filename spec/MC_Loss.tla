------------------------------- MODULE MC_Loss -------------------------------
(***************************************************************************)
(* Laws of the losses and of classification over all small vectors.        *)
(***************************************************************************)
EXTENDS Loss, Json

CONSTANTS Parts,           \* parts of the elements of predictions
          TParts           \* (real) parts of the elements of targets
PartsQ == {-1, 0, 2}
PartsT == {-2, -1, 0, 2}
TPartsT == {-1, 0, 1, 2}
VARIABLES t, p, done

Nums == {<<a, b>> : a, b \in Parts}
F(z) == <<z[1] * (FB \div 2), z[2] * (FB \div 2)>>
P == Map(F, p)
TI == [k \in 1..Len(t) |-> <<t[k], 0>>]
H == FB \div 256
Dirs == {<<1, 0>>, <<0, 1>>, <<1, -1>>}

(* 2 Re(d h) *)
Twice(d, h) == 2 * (d[1] * h[1] - d[2] * h[2])
SqLaw ==
  \A k \in 1..Len(p) : \A h \in Dirs :
    SqSum(TI, [p EXCEPT ![k] = GAdd(p[k], h)]) - SqSum(TI, p) = Twice(DSqSum(TI, p)[k], h) + GNormSq(h)

EntLaw ==
  \A k \in 1..Len(p) : \A h \in Dirs :
    LET up == [P EXCEPT ![k] = <<P[k][1] + h[1] * H, P[k][2] + h[2] * H>>]
        dn == [P EXCEPT ![k] = <<P[k][1] - h[1] * H, P[k][2] - h[2] * H>>]
        slope == (Entropy(t, up) - Entropy(t, dn)) * 128
        d == DEntropy(t, P)[k]
    IN Near(slope, 2 * (d[1] * h[1] - d[2] * h[2]), FB \div 100)

Probability ==
  LET s == Softmax(P)
  IN /\ \A k \in 1..Len(s) : s[k] >= 0 /\ s[k] <= FB
     /\ FAbs(SumI(s) - FB) <= 8
     /\ (SumI(t) = 1 /\ \A k \in 1..Len(t) : t[k] \in {0, 1}) => Entropy(t, P) >= -8

(* the class is the same after scaling and permuting equal elements counts first *)
ClassLaw ==
  /\ Class(p) \in 1..Len(p)
  /\ Class(Map(LAMBDA z : <<3 * z[1], 3 * z[2]>>, p)) = Class(p)
  /\ Class(Map(GConj, p)) = Class(p)
  /\ \A k \in 1..Len(p) : GNormSq(p[k]) <= GNormSq(p[Class(p)])
  /\ \A k \in 1..(Class(p) - 1) : GNormSq(p[k]) < GNormSq(p[Class(p)])

Init == /\ \E n \in 1..3 : p \in [1..n -> Nums]
        /\ t \in [1..Len(p) -> TParts] /\ done = FALSE
        /\ Len(p) < 3 \/ \A k \in 1..3 : p[k][2] \in {0, 1}
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<t, p>>
        /\ Assert(SqLaw, <<"squared error", t, p>>)
        /\ Assert(EntLaw, <<"cross entropy", t, p>>)
        /\ Assert(Probability, <<"softmax", t, p>>)
        /\ Assert(ClassLaw, <<"class", t, p>>)
        /\ PrintT(ToJson([t |-> t, p |-> p]))
=============================================================================
