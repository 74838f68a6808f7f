------------------------------- MODULE MC_Act -------------------------------
(***************************************************************************)
(* Laws of the activation functions on a grid: the two derivatives are the *)
(* Wirtinger derivatives of the value (central differences in several      *)
(* directions), ranges, symmetries.  Prints the grid for the code.         *)
(***************************************************************************)
EXTENDS WideAct, TLC, Json

CONSTANTS Steps,           \* grid: k / 4 for |k| <= Steps
          H                \* step of the differences, as fixed point
VARIABLES f, x, y, done

Z == <<x * (FB \div 4), y * (FB \div 4)>>
Dirs == {<<1, 0>>, <<0, 1>>, <<1, 1>>, <<1, -1>>, <<-1, 2>>}

(* central difference divided by H *)
Diff(d) ==
  LET hi == FAct(f, <<Z[1] + d[1] * H, Z[2] + d[2] * H>>)
      lo == FAct(f, <<Z[1] - d[1] * H, Z[2] - d[2] * H>>)
      n == FB \div (2 * H)
  IN <<(hi[1] - lo[1]) * n, (hi[2] - lo[2]) * n>>
Lin(d) ==
  LET a == FD(f, Z)  b == FDC(f, Z)
      h == <<FInt(d[1]), FInt(d[2])>>
  IN FCAdd(FCMul(a, h), FCMul(b, FCConj(h)))
(* room for a step in every direction *)
Far == IF f \in {"RITReLU", "ZReLU"} THEN Z[1] # 0 /\ Z[2] # 0 ELSE ~FKink(f, Z)
Rough == IF f \in {"ModZ", "Cardioid"} THEN FB \div 16 ELSE FB \div 1000

Wirtinger == Far => \A d \in Dirs : FCNear(Diff(d), Lin(d), Rough \div (1 + FCNormSq(Z) \div FB) + FB \div 1000)

Values ==
  LET v == FAct(f, Z)
  IN CASE f = "None" -> v = Z
       [] f = "ModZ" -> FAbs(FCNormSq(v) - FB) <= 64
       [] f = "RITSigmoid" -> /\ v[1] > 0 /\ v[1] < FB /\ v[2] > 0 /\ v[2] < FB
                              /\ FCNear(FAct(f, FCNeg(Z)), FCSub(<<FB, FB>>, v), 2)
       [] f = "RITTanh" -> FAbs(v[1]) <= FB /\ FAbs(v[2]) <= FB /\ FAct(f, FCNeg(Z)) = FCNeg(v)
       [] f = "RITReLU" -> FAct(f, v) = v /\ FCSub(v, FAct(f, FCNeg(Z))) = Z
       [] f = "ZReLU" -> v \in {Z, FCZero} /\ FAct(f, v) = v
       [] f = "Cardioid" -> /\ FCNear(FAct(f, FCConj(Z)), FCConj(v), 8)
                            /\ FCNormSq(v) <= 16 * FB + 400

(* the finer functions agree with the coarser ones, and their slopes are     *)
(* their derivatives; differences over 2^-11, in units of 2^-24              *)
WH == 4096
WDiff(d) ==
  LET hi == TLCEval(WAct(f, <<Z[1] + d[1] * WH, Z[2] + d[2] * WH>>))
      lo == TLCEval(WAct(f, <<Z[1] - d[1] * WH, Z[2] - d[2] * WH>>))
  IN <<WShift(WSub(hi[1], lo[1]), 11), WShift(WSub(hi[2], lo[2]), 11)>>
WLin(a, b, d) ==
     <<WAdd(WScale(d[1], WAdd(a[1], b[1])), WScale(d[2], WSub(b[2], a[2]))),
       WAdd(WScale(d[1], WAdd(a[2], b[2])), WScale(d[2], WSub(a[1], b[1])))>>
Close(a, b, u) == FAbs(a[1][1] - b[1][1]) <= u /\ FAbs(a[2][1] - b[2][1]) <= u
Coarse(z) == <<WOf(z[1]), WOf(z[2])>>
Most == IF FAbs(x) > FAbs(y) THEN FAbs(x) ELSE FAbs(y)
Curved == IF f \in {"ModZ", "Cardioid"} THEN 64 + 64000 \div (Most * Most * Most) ELSE 64
Finer ==
  Far => LET v == TLCEval(WAct(f, Z))  a == TLCEval(WD(f, Z))  b == TLCEval(WDC(f, Z))
         IN /\ Close(v, Coarse(FAct(f, Z)), 40)
            /\ Close(a, Coarse(FD(f, Z)), 120) /\ Close(b, Coarse(FDC(f, Z)), 120)
            /\ \A d \in {<<1, 0>>, <<0, 1>>} : Close(TLCEval(WDiff(d)), TLCEval(WLin(a, b, d)), Curved)

Init == f \in ActNames /\ x \in -Steps..Steps /\ y \in -Steps..Steps /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<f, x, y>>
        /\ ~(f = "ModZ" /\ Z = FCZero)
        /\ Assert(Wirtinger, <<"not the derivatives", f, x, y>>)
        /\ Assert(Finer, <<"finer functions", f, x, y>>)
        /\ Assert(Values, <<"value law", f, x, y>>)
        /\ PrintT(ToJson([f |-> f, z |-> Z]))
=============================================================================
