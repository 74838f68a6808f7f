------------------------------ MODULE MC_Matrix ------------------------------
(***************************************************************************)
(* Laws of the matrix operations over all small shapes.  Every explored    *)
(* combination of shapes is printed and executed on the code.              *)
(***************************************************************************)
EXTENDS Gauss, TLC, Json, FiniteSets
CONSTANTS N,          \* extents of matrices
          NK,         \* extents of kernels
          NB,         \* extents of blocks
          Kinds       \* which kinds of combinations
INSTANCE LinAlg WITH Add <- GAdd, Mul <- GMul, Conj <- GConj, Zero <- GZero

VARIABLES s, done

Fill(r, c, p) == [i \in 1..r |-> [j \in 1..c |-> <<((3 * i + 5 * j + p) % 7) - 3, ((2 * i * j + i + p) % 5) - 2>>]]
Delta(r, c) == [i \in 1..r |-> [j \in 1..c |-> IF i = Centre(r) /\ j = Centre(c) THEN GOne ELSE GZero]]
Total(A) == SumSeq(Flat(A))
Inner(A, B) == Dot(Flat(A), Flat(B))

E1 == 1..N
K1 == 1..NK
B1 == 1..NB
Combos(k) ==
  CASE k = "conv"  -> {[op |-> "conv", r |-> r, c |-> c, kr |-> kr, kc |-> kc] : r \in E1, c \in E1, kr \in K1, kc \in K1}
    [] k = "block" -> {[op |-> "block", r |-> r, c |-> c, br |-> br, bc |-> bc] : r \in E1, c \in E1, br \in B1, bc \in B1}
    [] k = "ups"   -> {[op |-> "ups", r |-> r, c |-> c, br |-> br, bc |-> bc, kr |-> kr, kc |-> kc] :
                         r \in 1..3, c \in 1..3, br \in B1, bc \in B1, kr \in K1, kc \in K1}
    [] k = "view"  -> {[op |-> "view", r |-> r, c |-> c, pr |-> pr, pc |-> pc] : r \in 0..N, c \in 0..N, pr \in 0..2, pc \in 0..2}
    [] k = "mat"   -> {[op |-> "mat", r |-> r, c |-> c, r2 |-> r2, c2 |-> c2] : r \in 0..3, c \in 0..3, r2 \in 0..3, c2 \in 0..3}
    [] k = "vec"   -> {[op |-> "vec", n |-> n, n2 |-> n2] : n \in 0..N, n2 \in 0..N}

Init == done = FALSE /\ \E k \in Kinds : s \in Combos(k)
Next == ~done /\ done' = TRUE /\ s' = s /\ PrintT(ToJson(s))

ConvLaws ==
  LET A == Fill(s.r, s.c, 1)  B == Fill(s.r, s.c, 4)  K == Fill(s.kr, s.kc, 2)
  IN Fits(A, K) =>
       LET C == Conv(A, K)  G == Fill(NRows(C), NCols(C), 3)
       IN /\ NRows(C) = s.r - s.kr + 1 /\ NCols(C) = s.c - s.kc + 1
          /\ Conv(MAdd(A, B), K) = MAdd(C, Conv(B, K))
          /\ Conv(Flip(A), Flip(K)) = Flip(C)
          /\ (s.kr = 1 /\ s.kc = 1) => C = MScale(K[1][1], A)
          /\ (s.kr = s.r /\ s.kc = s.c) => C = <<<<Inner(A, K)>>>>
          \* the transposed operation is the full correlation with the flipped kernel
          /\ Inner(C, G) = Inner(A, Conv(Pad(G, s.kr - 1, s.kc - 1), Flip(K)))
          \* and, in the kernel, the correlation with the input
          /\ Inner(C, G) = Inner(K, Conv(A, G))
BlockLaws ==
  LET A == [i \in 1..s.r |-> [j \in 1..s.c |-> <<100 * i + j, 0>>]]
      cells == {A[i][j] : i \in 1..s.r, j \in 1..s.c}
  IN Divides(A, s.br, s.bc) =>
       /\ Total(BlockReduce(A, s.br, s.bc, SumSeq)) = Total(A)
       /\ \A x \in cells : Cardinality({<<i, j, n>> \in (1..(s.r \div s.br)) \X (1..(s.c \div s.bc)) \X (1..(s.br * s.bc)) :
                                          Block(A, s.br, s.bc, i, j)[n] = x}) = 1
       /\ Block(A, s.br, s.bc, 1, 1)[s.br * s.bc] = A[s.br][s.bc]
       /\ s.bc > 1 => Block(A, s.br, s.bc, 1, 1)[2] = A[1][2]
UpsLaws ==
  LET A == Fill(s.r, s.c, 2)  K == Fill(s.kr, s.kc, 5)
  IN OddShape(K) =>
       LET U == Upsample(A, s.br, s.bc, K)  G == Fill(s.r * s.br, s.c * s.bc, 1)
       IN /\ NRows(U) = s.r * s.br /\ NCols(U) = s.c * s.bc
          /\ BlockReduce(Upsample(A, s.br, s.bc, Delta(s.kr, s.kc)), s.br, s.bc, SumSeq) = A
          /\ Total(Spread(A, s.br, s.bc)) = Total(A)
ViewLaws ==
  LET A == Fill(s.r, s.c, 3)
  IN (s.r > 0 /\ s.c > 0) =>
       /\ Flip(Flip(A)) = A /\ Shape(Flat(A), s.r, s.c) = A
       /\ Total(Pad(A, s.pr, s.pc)) = Total(A)
       /\ NRows(Pad(A, s.pr, s.pc)) = s.r + 2 * s.pr /\ NCols(Pad(A, s.pr, s.pc)) = s.c + 2 * s.pc
       /\ [i \in 1..s.r |-> SubSeq(Pad(A, s.pr, s.pc)[s.pr + i], s.pc + 1, s.pc + s.c)] = A
MatLaws ==
  LET A == Fill(s.r, s.c, 1)  B == Fill(s.r, s.c, 2)  x == [j \in 1..s.c |-> <<j, 1 - j>>]  y == [j \in 1..s.c |-> <<2, j>>]
  IN /\ MAdd(A, B) = MAdd(B, A)
     /\ MatVec(A, VAdd(x, y)) = VAdd(MatVec(A, x), MatVec(A, y))
     /\ MatVec(MAdd(A, B), x) = VAdd(MatVec(A, x), MatVec(B, x))
     /\ MatVec(MScale(GI, A), x) = VScale(GI, MatVec(A, x))
VecLaws ==
  LET x == [j \in 1..s.n |-> <<j, 1 - j>>]  y == [j \in 1..s.n |-> <<2, j>>]
  IN Dot(x, y) = Dot(y, x) /\ Dot(x, y) = SumSeq(VMul(x, y)) /\ Dot(VConj(x), VConj(y)) = GConj(Dot(x, y))

Laws ==
  done => CASE s.op = "conv"  -> ConvLaws
            [] s.op = "block" -> BlockLaws
            [] s.op = "ups"   -> UpsLaws
            [] s.op = "view"  -> ViewLaws
            [] s.op = "mat"   -> MatLaws
            [] s.op = "vec"   -> VecLaws
=============================================================================
