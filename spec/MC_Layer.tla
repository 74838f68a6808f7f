------------------------------ MODULE MC_Layer ------------------------------
(***************************************************************************)
(* All small layers of every kind with fixed pseudo-random parameters.     *)
(* The laws tie the kinds to one another; every layer and input is also    *)
(* printed, to be run on the code.                                         *)
(***************************************************************************)
EXTENDS Exact, Json

CONSTANTS MaxUnits, MaxChan, MaxSide, MaxKern, Salts

VARIABLES job, done

Num(s, n) == <<((7 * n + 5 * s) % 11) - 5, ((5 * n + 3 * s * s + n * n) % 9) - 4>>
Vec(s, n) == [k \in 1..n |-> Num(s, k)]
Mat(s, r, c) == [i \in 1..r |-> [j \in 1..c |-> Num(s, (i - 1) * c + j)]]
Img(s, n, r, c) == [m \in 1..n |-> Mat(s + m, r, c)]
Ones(r, c) == [i \in 1..r |-> [j \in 1..c |-> GOne]]

Side == 1..MaxSide
Jobs ==
  [kind : {"dense"}, ni : 1..MaxUnits, no : 1..MaxUnits, act : {"None", "RITReLU", "ZReLU"}, s : Salts]
  \cup [kind : {"conv"}, nc : 1..MaxChan, nf : 1..MaxChan, r : Side, c : Side, kr : 1..MaxKern, kc : 1..MaxKern,
        act : {"None", "RITReLU", "ZReLU"}, s : Salts]
  \cup [kind : {"reduce"}, nc : 1..MaxChan, r : Side, c : Side, br : Side, bc : Side,
        f : {"sum", "wsum", "first", "last"}, s : Salts]
  \cup [kind : {"flatten"}, nc : 1..MaxChan, r : Side, c : Side, s : Salts]
Valid(j) ==
  CASE j.kind = "conv"   -> j.kr <= j.r /\ j.kc <= j.c
    [] j.kind = "reduce" -> j.r % j.br = 0 /\ j.c % j.bc = 0
    [] OTHER -> TRUE

LayerOf(j) ==
  CASE j.kind = "dense"   -> [kind |-> "dense", w |-> Mat(j.s, j.no, j.ni), b |-> Vec(j.s + 1, j.no), act |-> j.act]
    [] j.kind = "conv"    -> [kind |-> "conv", k |-> [f \in 1..j.nf |-> Img(j.s + 10 * f, j.nc, j.kr, j.kc)],
                              b |-> Vec(j.s + 2, j.nf), act |-> j.act]
    [] j.kind = "reduce"  -> [kind |-> "reduce", bs |-> <<j.br, j.bc>>, f |-> j.f, kern |-> Ones(1, 1)]
    [] j.kind = "flatten" -> [kind |-> "flatten"]
InputOf(j) == IF j.kind = "dense" THEN Scal(Vec(j.s + 3, j.ni)) ELSE Maps(Img(j.s + 4, j.nc, j.r, j.c))

Plain(y) == [y EXCEPT !.act = "None"]
AddIO(x, y) == IF x.io = "s" THEN Scal(VAdd(x.v, y.v)) ELSE Maps([m \in 1..Len(x.v) |-> MAdd(x.v[m], y.v[m])])
Total(io) == SumSeq(FlatIO(io))

(* out(x + y) + out(0) = out(x) + out(y) without activation *)
Affine(y, x) ==
  LET x2 == AddIO(x, x)  p == Plain(y)
      zero == IF x.io = "s" THEN Scal(VScale(GZero, x.v)) ELSE Maps([m \in 1..Len(x.v) |-> MScale(GZero, x.v[m])])
  IN VAdd(FlatIO(Out(p, x2)), FlatIO(Out(p, zero))) = VScale(<<2, 0>>, FlatIO(Out(p, x)))
(* a kernel as large as the map makes a convolutional layer a dense layer *)
AsDense(y) == [kind |-> "dense", w |-> [f \in 1..Len(y.k) |-> FlatIO(Maps(y.k[f]))], b |-> y.b, act |-> y.act]
Laws(j) ==
  LET y == LayerOf(j)  x == InputOf(j)  o == Out(y, x)
  IN CASE j.kind = "dense"   -> Accepts(y, x) /\ o.io = "s" /\ Len(o.v) = j.no /\ Affine(y, x)
       [] j.kind = "conv"    -> /\ Accepts(y, x) /\ o.io = "m" /\ Len(o.v) = j.nf /\ Affine(y, x)
                                /\ \A f \in 1..j.nf : NRows(o.v[f]) = j.r - j.kr + 1 /\ NCols(o.v[f]) = j.c - j.kc + 1
                                /\ (j.r = j.kr /\ j.c = j.kc) =>
                                     FlatIO(o) = Out(AsDense(y), Scal(FlatIO(x))).v
       [] j.kind = "reduce"  -> /\ o.io = "m" /\ Len(o.v) = j.nc
                                /\ \A m \in 1..j.nc : NRows(o.v[m]) = j.r \div j.br /\ NCols(o.v[m]) = j.c \div j.bc
                                /\ j.f = "sum" => Total(o) = Total(x)
                                /\ (j.br = 1 /\ j.bc = 1) => o = x
       [] j.kind = "flatten" -> /\ o.io = "s" /\ Len(o.v) = j.nc * j.r * j.c
                                /\ \A m \in 1..j.nc, a \in 1..j.r, b \in 1..j.c :
                                     o.v[((m - 1) * j.r + a - 1) * j.c + b] = x.v[m][a][b]

Init == job \in {j \in Jobs : Valid(j)} /\ done = FALSE
Next ==
  /\ ~done /\ done' = TRUE /\ job' = job
  /\ Assert(Laws(job), <<"law", job>>)
  /\ PrintT(ToJson([l |-> LayerOf(job), x |-> InputOf(job)]))
=============================================================================
