------------------------------ MODULE TR_Matrix ------------------------------
(***************************************************************************)
(* Views, linear operations, convolution and blocks of matrices.           *)
(***************************************************************************)
EXTENDS Quot, Events
INSTANCE LinAlg WITH Add <- GAdd, Mul <- GMul, Conj <- GConj, Zero <- GZero

(*---------------------------------- views --------------------------------*)
(* contents of the view checks are plain integers, row-major in e.want      *)
At(e, a, b) == e.want[a * e.c + b + 1]                      \* from zero
Row(e, a) == [b \in 1..e.c |-> At(e, a, b - 1)]
Col(e, b) == [a \in 1..e.r |-> At(e, a - 1, b)]
RowsOf(e) == IF e.c = 0 THEN <<>> ELSE [a \in 1..e.r |-> Row(e, a - 1)]
IsMat(x, r, c, body) == x.shape = <<r, c>> /\ x.body = body

(* results listed for all (a, b) with a < r + 2, b < c + 2 *)
GridOk(e, list, P(_, _, _)) ==
  /\ Len(list) = (e.r + 2) * (e.c + 2)
  /\ \A n \in 1..Len(list) : P(list[n], (n - 1) \div (e.c + 2), (n - 1) % (e.c + 2))
InR(e, a) == a < e.r
InC(e, b) == b < e.c
Refused(r) == Failed(r)

ZPad(e) ==
  LET W == e.c + 2 * e.pc  H == e.r + 2 * e.pr
  IN [n \in 1..(W * H) |->
       LET a == (n - 1) \div W - e.pr  b == ((n - 1) % W) - e.pc
       IN IF a >= 0 /\ a < e.r /\ b >= 0 /\ b < e.c THEN At(e, a, b) ELSE 0]

ViewOk(e) ==
  LET n == e.r * e.c
      idx(a, b) == a * e.c + b + 1
  IN CASE ~(Len(e.want) = n /\ IsMat(e, e.r, e.c, e.want)) -> "contents"
       [] ~GridOk(e, e.elm, LAMBDA r, a, b : IF InR(e, a) /\ InC(e, b) THEN Is(r, At(e, a, b)) ELSE Refused(r)) -> "element"
       [] ~GridOk(e, e.elmmut, LAMBDA r, a, b :
             IF InR(e, a) /\ InC(e, b) THEN Ok(r) /\ IsMat(r.v, e.r, e.c, [e.want EXCEPT ![idx(a, b)] = 7777])
             ELSE Refused(r) /\ IsMat(r.v, e.r, e.c, e.want)) -> "mutable element"
       [] ~(Len(e.row) = e.r + 2 /\ \A a \in 0..(e.r + 1) : IF InR(e, a) THEN Is(e.row[a + 1], Row(e, a)) ELSE Refused(e.row[a + 1])) -> "row"
       [] ~(\A a \in 0..(e.r + 1) :
             LET r == e.rowmut[a + 1]
             IN IF InR(e, a) THEN Ok(r) /\ IsMat(r.v, e.r, e.c, [k \in 1..n |-> IF (k - 1) \div e.c = a THEN 8000 + ((k - 1) % e.c) ELSE e.want[k]])
                ELSE Refused(r)) -> "mutable row"
       [] ~(\A a \in 0..(e.r + 1) : IF InR(e, a) THEN Is(e.rowsl[a + 1], Row(e, a))
                                   ELSE Refused(e.rowsl[a + 1]) /\ e.rowsl[a + 1].v = [k \in 1..e.c |-> -5]) -> "row into slice"
       [] ~(\A a \in 0..(e.r + 1) : Refused(e.rowbad[a + 1])) -> "row into a slice of wrong length"
       [] ~(\A b \in 0..(e.c + 1) : IF InC(e, b) THEN Is(e.colsl[b + 1], Col(e, b))
                                   ELSE Refused(e.colsl[b + 1]) /\ e.colsl[b + 1].v = [k \in 1..e.r |-> -5]) -> "column into slice"
       [] ~(\A b \in 0..(e.c + 1) : Refused(e.colbad[b + 1])) -> "column into a slice of wrong length"
       [] ~(\A b \in 0..(e.c + 1) : IF InC(e, b) THEN Is(e.col[b + 1], Col(e, b)) ELSE Refused(e.col[b + 1])) -> "column"
       [] ~Is(e.iter, RowsOf(e)) -> "row iterator"
       [] ~Is(e.par, RowsOf(e)) -> "parallel row iterator"
       [] ~(Ok(e.itermut) /\ IsMat(e.itermut.v, e.r, e.c, [k \in 1..n |-> 9000 + (k - 1) \div e.c])) -> "mutable row iterator"
       [] ~(Ok(e.bodymut) /\ IsMat(e.bodymut.v, e.r, e.c, [k \in 1..n |-> 6000 + k - 1])) -> "mutable body"
       [] ~(\A k \in 1..Len(e.sl) : LET x == e.sl[k] IN
             IF x.i + x.n <= e.r THEN Is(x.r, [a \in 1..x.n |-> Row(e, x.i + a - 1)]) ELSE ~Ok(x.r)) -> "row window"
       [] ~(Is(e.export, e.want) /\ Is(e.intoiter, e.want)) -> "flat body"
       [] ~(Ok(e.flip) /\ IsMat(e.flip.v, e.r, e.c, [k \in 1..n |-> e.want[n + 1 - k]])) -> "flip"
       [] ~(Ok(e.pad) /\ (n > 0 => IsMat(e.pad.v, e.r + 2 * e.pr, e.c + 2 * e.pc, ZPad(e)))) -> "padding"
       [] ~(Ok(e.disp) /\ Len(e.disp.v) >= Len(RowsOf(e)) /\ SubSeq(e.disp.v, 1, Len(RowsOf(e))) = RowsOf(e)) -> "printing"
       [] ~Is(e.csv, RowsOf(e)) -> "export"
       [] ~(\A k \in 1..Len(e.tomat) :
             LET x == e.tomat[k]
             IN IF x.r * x.c = n THEN Ok(x.m) /\ IsMat(x.m.v, x.r, x.c, e.want) ELSE Refused(x.m)) -> "reshaping"
       [] OTHER -> "ok"

(* a large matrix that holds 1, 2, 3, ... *)
LargeOk(e) ==
  LET n == e.r * e.c
      val(a, b) == a * e.c + b + 1
      body == [k \in 1..n |-> k]
      row(a) == [b \in 1..e.c |-> val(a, b - 1)]
      col(b) == [a \in 1..e.r |-> val(a - 1, b)]
      rows == TLCEval([a \in 1..e.r |-> row(a - 1)])
      w == e.c + 2 * e.pc
      padded == [k \in 1..(w * (e.r + 2 * e.pr)) |->
                  LET a == (k - 1) \div w - e.pr  b == ((k - 1) % w) - e.pc
                  IN IF a >= 0 /\ a < e.r /\ b >= 0 /\ b < e.c THEN val(a, b) ELSE 0]
      All(list, In(_), P(_)) == \A k \in 1..Len(list) : IF In(list[k]) THEN P(list[k]) ELSE Failed(list[k].r)
  IN CASE ~IsMat(e, e.r, e.c, body) -> "contents"
       [] ~All(e.elm, LAMBDA x : x.a < e.r /\ x.b < e.c, LAMBDA x : Is(x.r, val(x.a, x.b))) -> "element"
       [] ~All(e.row, LAMBDA x : x.a < e.r, LAMBDA x : Is(x.r, row(x.a))) -> "row"
       [] ~All(e.col, LAMBDA x : x.b < e.c, LAMBDA x : Is(x.r, col(x.b))) -> "column"
       [] ~All(e.colsl, LAMBDA x : x.b < e.c, LAMBDA x : Is(x.r, col(x.b))) -> "column into slice"
       [] ~Is(e.iter, rows) -> "row iterator"
       [] ~Is(e.par, rows) -> "parallel row iterator"
       [] ~(Ok(e.flip) /\ IsMat(e.flip.v, e.r, e.c, [k \in 1..n |-> n + 1 - k])) -> "flip"
       [] ~(Ok(e.pad) /\ IsMat(e.pad.v, e.r + 2 * e.pr, w, padded)) -> "padding"
       [] ~(Ok(e.disp) /\ Len(e.disp.v) >= e.r /\ SubSeq(e.disp.v, 1, e.r) = rows) -> "printing"
       [] ~Is(e.csv, rows) -> "export"
       [] ~(Ok(e.tomat) /\ IsMat(e.tomat.v, e.c, e.r, body)) -> "reshaping"
       [] OTHER -> "ok"

(* numbers read back from the text, as their bits *)
TextOk(e) ==
  CASE ~Is(e.disp, RowsOf(e)) -> "printing"
    [] ~Is(e.csv, RowsOf(e)) -> "export"
    [] OTHER -> "ok"

(*---------------------------- linear operations --------------------------*)
Unsized(m) == m.shape = <<0, 0>> /\ m.cap = <<0, 0>>
Each(a, P(_, _), x) == Len(x) = Len(a) /\ \A k \in 1..Len(a) : P(a[k], x[k])

MatOk(e) ==
  LET a == e.a  b == e.b
      rows == a.shape[1]  cols == a.shape[2]
      A == Shape(a.body, rows, cols)
      sameSum == e.sum.shape = a.shape /\ e.sum.body = a.body
  IN CASE ~(e.sum.cap[1] >= e.sum.shape[1] /\ e.sum.cap[2] >= e.sum.shape[2]) -> "capacity below the shape of a sum"
       [] Unsized(a) /\ ~(Ok(e.add) /\ e.sum.shape = b.shape /\ e.sum.body = b.body) -> "sum with an unsized matrix"
       [] ~Unsized(a) /\ Unsized(b) /\ ~(Ok(e.add) /\ sameSum) -> "sum with an unsized matrix"
       [] ~Unsized(a) /\ ~Unsized(b) /\ a.shape = b.shape
            /\ ~(Ok(e.add) /\ e.sum.shape = a.shape /\ e.sum.body = VAdd(a.body, b.body)) -> "matrix sum"
       [] ~Unsized(a) /\ ~Unsized(b) /\ a.shape # b.shape /\ ~(Failed(e.add) /\ sameSum) -> "sum of different shapes"
       [] Len(e.x) = cols /\ ~(Is(e.mulv, MatVec(A, e.x)) /\ Is(e.muls, MatVec(A, e.x))) -> "matrix times vector"
       [] Len(e.x) # cols /\ ~(Failed(e.mulv) /\ Failed(e.muls)) -> "matrix times vector of wrong length"
       [] ~(Ok(e.adds) /\ e.adds.v.shape = a.shape /\ e.adds.v.body = [k \in 1..Len(a.body) |-> GAdd(a.body[k], e.k)]) -> "sum with a scalar"
       [] ~(Ok(e.mulsc) /\ e.mulsc.v.shape = a.shape /\ e.mulsc.v.body = [k \in 1..Len(a.body) |-> GMul(a.body[k], e.k)]) -> "product with a scalar"
       [] ~(Ok(e.divsc) /\ e.divsc.v.shape = a.shape /\ Each(a.body, LAMBDA x, q : QuotOk(q, x, e.k), e.divsc.v.body)) -> "division by a scalar"
       [] OTHER -> "ok"

VecOk(e) ==
  LET x == e.x  y == e.y  same == Len(x) = Len(y)
  IN CASE same /\ ~(Ok(e.addm) /\ e.addv = VAdd(x, y)) -> "vector sum in place"
       [] same /\ ~Is(e.add, VAdd(x, y)) -> "vector sum"
       [] same /\ ~(Ok(e.mulm) /\ e.mulv = VMul(x, y)) -> "element-wise product in place"
       [] same /\ ~Is(e.mul, VMul(x, y)) -> "element-wise product"
       [] ~same /\ ~(Failed(e.addm) /\ e.addv = x /\ Failed(e.mulm) /\ e.mulv = x /\ Failed(e.mul)) -> "vectors of different length"
       [] ~same /\ Len(x) > 0 /\ ~Failed(e.add) -> "vectors of different length"
       [] ~same /\ Len(x) = 0 /\ ~Is(e.add, y) -> "sum with a vector without elements"
       [] ~(Ok(e.kres) /\ e.ks = [k \in 1..Len(x) |-> GMul(x[k], e.k)]) -> "vector times scalar"
       [] ~(Ok(e.dres) /\ Each(x, LAMBDA a, q : QuotOk(q, a, e.k), e.ds)) -> "vector divided by scalar"
       [] same /\ ~Is(e.dot, Dot(x, y)) -> "scalar product"
       [] OTHER -> "ok"

(*-------------------------- convolution and blocks -----------------------*)
IsObs(r, M) == Ok(r) /\ r.v.shape = <<NRows(M), NCols(M)>> /\ r.v.body = Flat(M)

ConvOk(e) ==
  CASE ~Fits(e.a, e.k) /\ ~Failed(e.plain) -> "kernel larger than the matrix"
    [] ~Fits(e.a, e.k) /\ ~Failed(e.conj) -> "kernel larger than the matrix, complex variant"
    [] Fits(e.a, e.k) /\ ~IsObs(e.plain, Conv(e.a, e.k)) -> "convolution"
    [] Fits(e.a, e.k) /\ ~IsObs(e.conj, Conv(e.a, MConj(e.k))) -> "complex convolution"
    [] OTHER -> "ok"

RECURSIVE PSum(_, _, _, _)
PSum(blk, part, n, weighted) ==
  IF n = 0 THEN 0 ELSE PSum(blk, part, n - 1, weighted) + (IF weighted THEN n ELSE 1) * blk[n][part]
BlockVal(f, blk) ==
  CASE f = "sum"   -> <<PSum(blk, 1, Len(blk), FALSE), PSum(blk, 2, Len(blk), FALSE)>>
    [] f = "wsum"  -> <<PSum(blk, 1, Len(blk), TRUE), PSum(blk, 2, Len(blk), TRUE)>>
    [] f = "first" -> blk[1]
    [] f = "last"  -> blk[Len(blk)]
BlockOk(e) ==
  IF ~Divides(e.a, e.br, e.bc)
  THEN IF Failed(e.red) THEN "ok" ELSE "block size that does not divide"
  ELSE LET all == {Block(e.a, e.br, e.bc, i, j) : i \in 1..(NRows(e.a) \div e.br), j \in 1..(NCols(e.a) \div e.bc)}
           count == (NRows(e.a) \div e.br) * (NCols(e.a) \div e.bc)
       IN CASE ~(Len(e.calls) = count /\ {e.calls[k] : k \in 1..Len(e.calls)} = all) -> "blocks handed to the block function"
            [] ~IsObs(e.red, BlockReduce(e.a, e.br, e.bc, LAMBDA blk : BlockVal(e.f, blk))) -> "block reduction"
            [] OTHER -> "ok"
UpsOk(e) ==
  IF ~OddShape(e.k) THEN IF Failed(e.up) THEN "ok" ELSE "kernel with an even extent"
  ELSE IF IsObs(e.up, Upsample(e.a, e.br, e.bc, e.k)) THEN "ok" ELSE "upsampling"

Verdict(e) ==
  CASE e.ev = "view"  -> ViewOk(e)
    [] e.ev = "large" -> LargeOk(e)
    [] e.ev = "text"  -> TextOk(e)
    [] e.ev = "mat"   -> MatOk(e)
    [] e.ev = "vec"   -> VecOk(e)
    [] e.ev = "conv"  -> ConvOk(e)
    [] e.ev = "block" -> BlockOk(e)
    [] e.ev = "ups"   -> UpsOk(e)
    [] OTHER -> e.op

VARIABLES l, v
Init == l \in 1..NEvents /\ v = "todo"
Next == v = "todo" /\ v' = Verdict(Trace[l]) /\ l' = l
Accepted == v \in {"todo", "ok", "known"}
=============================================================================
