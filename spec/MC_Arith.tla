------------------------------ MODULE MC_Arith ------------------------------
(***************************************************************************)
(* The specified complex arithmetic is a field with an involution, and the *)
(* order by modulus is a total preorder: exhaustively over a box.          *)
(***************************************************************************)
EXTENDS Gauss
CONSTANT K
VARIABLES a, b, c, done
vars == <<a, b, c, done>>

Init == a \in Box(K) /\ b \in Box(K) /\ c \in {GZero} /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' \in Box(K) /\ UNCHANGED <<a, b>>

Ring ==
  /\ GAdd(a, b) = GAdd(b, a) /\ GMul(a, b) = GMul(b, a)
  /\ GAdd(GAdd(a, b), c) = GAdd(a, GAdd(b, c))
  /\ GMul(GMul(a, b), c) = GMul(a, GMul(b, c))
  /\ GMul(a, GAdd(b, c)) = GAdd(GMul(a, b), GMul(a, c))
  /\ GAdd(a, GZero) = a /\ GMul(a, GOne) = a /\ GAdd(a, GNeg(a)) = GZero
  /\ GSub(a, b) = GAdd(a, GNeg(b)) /\ GMul(GI, GI) = GNeg(GOne)
(* a / b exists and is unique whenever b # 0 *)
Quotient ==
  /\ b # GZero => GIsQuot(a, GMul(a, b), b)
  /\ (b # GZero /\ GMul(a, b) = GMul(c, b)) => a = c
Involution ==
  /\ GConj(GConj(a)) = a /\ GConj(GAdd(a, b)) = GAdd(GConj(a), GConj(b))
  /\ GConj(GMul(a, b)) = GMul(GConj(a), GConj(b))
  /\ GMul(a, GConj(a)) = <<GNormSq(a), 0>> /\ GNormSq(GMul(a, b)) = GNormSq(a) * GNormSq(b)
Order ==
  LET le(x, y) == GNormSq(x) <= GNormSq(y)
  IN /\ le(a, b) \/ le(b, a)
     /\ (le(a, b) /\ le(b, c)) => le(a, c)
     /\ (a = b) => (le(a, b) /\ le(b, a))
=============================================================================
