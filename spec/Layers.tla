------------------------------- MODULE Layers -------------------------------
(***************************************************************************)
(* Layers and networks over an arithmetic given by operators.              *)
(*                                                                         *)
(* A layer is one of                                                       *)
(*   [kind |-> "dense",   w |-> matrix, b |-> vector, act |-> name]        *)
(*   [kind |-> "conv",    k |-> filters (sequences of kernels, one per     *)
(*                        channel), b |-> vector, act |-> name]            *)
(*   [kind |-> "reduce",  bs |-> <<rows, cols>>, f |-> name, kern |-> K]   *)
(*   [kind |-> "flatten"]                                                  *)
(* A value between layers is [io |-> "s", v |-> vector] (scalars) or       *)
(* [io |-> "m", v |-> sequence of matrices] (maps).                        *)
(***************************************************************************)
EXTENDS LinAlg

CONSTANTS Act(_, _),       \* activation value of a number
          Back(_, _, _),   \* derivative w.r.t. the pre-activation q, given the
                           \* derivative g w.r.t. the activation of a real loss
          BlockF(_, _)     \* block function of a pooling layer

Scal(v) == [io |-> "s", v |-> v]
Maps(m) == [io |-> "m", v |-> m]
FlatIO(x) == IF x.io = "s" THEN x.v ELSE FlattenSeq([i \in 1..Len(x.v) |-> Flat(x.v[i])])

(*------------------------------- inference -------------------------------*)
DensePre(l, x) == TLCEval(VAdd(MatVec(l.w, x), l.b))
ConvPre(l, maps, f) ==      \* pre-activation of filter f
  LET ch == Len(maps)
      RECURSIVE acc(_)
      acc(c) == IF c = 1 THEN Conv(maps[1], l.k[f][1])
                ELSE TLCEval(MAdd(acc(c - 1), Conv(maps[c], l.k[f][c])))
      s == acc(ch)
  IN TLCEval([i \in 1..Len(s) |-> TLCEval([j \in 1..Len(s[1]) |-> Add(s[i][j], l.b[f])])])
ActMat(a, M) == TLCEval([i \in 1..Len(M) |-> TLCEval([j \in 1..Len(M[1]) |-> Act(a, M[i][j])])])

(* the input kinds a layer accepts *)
Accepts(l, x) ==
  CASE l.kind = "dense" -> x.io = "s"
    [] l.kind = "conv"  -> x.io = "m" /\ Len(x.v) = Len(l.k[1])
    [] OTHER            -> x.io = "m"

Out(l, x) ==
  CASE l.kind = "dense"   -> LET q == DensePre(l, x.v)
                             IN Scal(TLCEval([i \in 1..Len(q) |-> Act(l.act, q[i])]))
    [] l.kind = "conv"    -> Maps(TLCEval([f \in 1..Len(l.k) |-> ActMat(l.act, ConvPre(l, x.v, f))]))
    [] l.kind = "reduce"  -> Maps(TLCEval([m \in 1..Len(x.v) |->
                               BlockReduce(x.v[m], l.bs[1], l.bs[2], LAMBDA blk : BlockF(l.f, blk))]))
    [] l.kind = "flatten" -> Scal(FlatIO(x))

(* all activations: the input, then the output of every layer *)
Acts(net, x) ==
  FoldLeft(LAMBDA acc, l : Append(acc, Out(l, acc[Len(acc)])), <<x>>, net)
Predict(net, x) == LET a == Acts(net, x) IN a[Len(a)]

(*------------------------------ derivatives ------------------------------*)
(* x: input of the layer, g: derivative of a real loss w.r.t. its flattened *)
(* output.  Result: derivatives w.r.t. weights, biases and flattened input. *)
DenseBack(l, x, g) ==
  LET q == DensePre(l, x.v)
      d == TLCEval([i \in 1..Len(q) |-> Back(l.act, q[i], g[i])])
      ni == Len(x.v)
  IN [dw |-> TLCEval([n \in 1..(Len(q) * ni) |-> Mul(d[(n - 1) \div ni + 1], x.v[((n - 1) % ni) + 1])]),
      db |-> d,
      dx |-> TLCEval([j \in 1..ni |-> SumOver(Len(q), LAMBDA i : Mul(l.w[i][j], d[i]))])]

ConvBack(l, x, g) ==
  LET nf == Len(l.k)  nc == Len(l.k[1])
      kr == NRows(l.k[1][1])  kc == NCols(l.k[1][1])
      d == TLCEval([f \in 1..nf |->
             LET q == ConvPre(l, x.v, f)
                 gm == Shape(Part(g, f, nf), Len(q), Len(q[1]))
             IN TLCEval([i \in 1..Len(q) |-> TLCEval([j \in 1..Len(q[1]) |-> Back(l.act, q[i][j], gm[i][j])])])])
      (* correlation of the input with the output derivative, per kernel *)
      dk == FlattenSeq([n \in 1..(nf * nc) |->
              Flat(Conv(x.v[((n - 1) % nc) + 1], d[(n - 1) \div nc + 1]))])
      (* full correlation with the flipped kernels, summed over filters *)
      dx == FlattenSeq([c \in 1..nc |->
              LET RECURSIVE acc(_)
                  acc(f) == LET t == TLCEval(Conv(Pad(d[f], kr - 1, kc - 1), Flip(l.k[f][c])))
                            IN IF f = 1 THEN t ELSE TLCEval(MAdd(acc(f - 1), t))
              IN Flat(acc(nf))])
  IN [dw |-> TLCEval(dk), db |-> TLCEval([f \in 1..nf |-> SumSeq(Flat(d[f]))]), dx |-> TLCEval(dx)]

ReduceBack(l, x, g) ==
  LET nm == Len(x.v)
  IN [dw |-> <<>>, db |-> <<>>,
      dx |-> TLCEval(FlattenSeq([m \in 1..nm |->
               LET A == x.v[m]
               IN Flat(Upsample(Shape(Part(g, m, nm), NRows(A) \div l.bs[1], NCols(A) \div l.bs[2]),
                                l.bs[1], l.bs[2], l.kern))]))]

LayerBack(l, x, g) ==
  CASE l.kind = "dense"   -> DenseBack(l, x, g)
    [] l.kind = "conv"    -> ConvBack(l, x, g)
    [] l.kind = "reduce"  -> ReduceBack(l, x, g)
    [] l.kind = "flatten" -> [dw |-> <<>>, db |-> <<>>, dx |-> g]

(* derivatives of the loss of one point for all layers, given the derivative *)
(* g w.r.t. the prediction                                                   *)
RECURSIVE BackFrom(_, _, _, _)
BackFrom(net, acts, n, g) ==
  IF n = 0 THEN <<>>
  ELSE LET r == TLCEval(LayerBack(net[n], acts[n], g))
       IN Append(BackFrom(net, acts, n - 1, r.dx), [dw |-> r.dw, db |-> r.db])
NetBack(net, x, g(_)) ==
  LET a == TLCEval(Acts(net, x))
  IN BackFrom(net, a, Len(net), TLCEval(g(FlatIO(a[Len(a)]))))

(*------------------------------- adjustment ------------------------------*)
(* parameters minus the conjugate of the adjustment *)
Sub(a, b, MinusOne) == Add(a, Mul(MinusOne, b))
AdjVec(v, d, m1) == TLCEval([i \in 1..Len(v) |-> Sub(v[i], Conj(d[i]), m1)])
AdjMat(A, d, m1) ==
  TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A[1]) |-> Sub(A[i][j], Conj(d[(i - 1) * Len(A[1]) + j]), m1)])])
Adjust(l, dw, db, m1) ==
  CASE l.kind = "dense" -> [l EXCEPT !.w = AdjMat(l.w, dw, m1), !.b = AdjVec(l.b, db, m1)]
    [] l.kind = "conv"  ->
         LET nc == Len(l.k[1])  n == Len(l.k) * nc
         IN [l EXCEPT !.b = AdjVec(l.b, db, m1),
                      !.k = TLCEval([f \in 1..Len(l.k) |-> TLCEval([c \in 1..nc |->
                               AdjMat(l.k[f][c], Part(dw, (f - 1) * nc + c, n), m1)])])]
    [] OTHER -> l

(* sums of derivatives of two points *)
AddBack(a, b) == TLCEval([n \in 1..Len(a) |-> [dw |-> TLCEval(VAdd(a[n].dw, b[n].dw)), db |-> TLCEval(VAdd(a[n].db, b[n].db))]])

(* one training step: rate is (learning rate / batch size) as a number     *)
Step(net, xs, gs(_, _), rate, m1) ==
  LET per == TLCEval([p \in 1..Len(xs) |-> NetBack(net, xs[p], LAMBDA pr : gs(p, pr))])
      tot == FoldLeft(LAMBDA acc, e : AddBack(acc, e), per[1], Tail(per))
  IN TLCEval([n \in 1..Len(net) |-> Adjust(net[n], TLCEval(VScale(rate, tot[n].dw)), TLCEval(VScale(rate, tot[n].db)), m1)])

(*--------------------------- counts and shapes ---------------------------*)
Params(l) ==
  CASE l.kind = "dense" -> Len(l.b) + Len(l.w) * NCols(l.w)
    [] l.kind = "conv"  -> Len(l.b) + Len(l.k) * Len(l.k[1]) * NRows(l.k[1][1]) * NCols(l.k[1][1])
    [] OTHER -> 0
=============================================================================
