----------------------------- MODULE Container -----------------------------
(***************************************************************************)
(* A matrix as a bounded list of rows of equal width.  The state is        *)
(* [rows, w, cap]: the rows, their width, the capacity <<rows, columns>>.  *)
(***************************************************************************)
EXTENDS Integers, Sequences

NewC(cap) == [rows |-> <<>>, w |-> 0, cap |-> cap]
FromC(rows, w) == [rows |-> rows, w |-> w, cap |-> <<Len(rows), w>>]

ShapeC(m) == <<Len(m.rows), m.w>>
RECURSIVE BodyFrom(_)
BodyFrom(rows) == IF rows = <<>> THEN <<>> ELSE Head(rows) \o BodyFrom(Tail(rows))
BodyC(m) == BodyFrom(m.rows)

(* a state every history must stay in *)
WellFormed(m) ==
  /\ \A i \in 1..Len(m.rows) : Len(m.rows[i]) = m.w
  /\ Len(m.rows) <= m.cap[1] /\ m.w <= m.cap[2]
  /\ Len(m.rows) * m.w = Len(BodyC(m))

Untouched(m) == Len(m.rows) = 0 /\ m.w = 0

CanAddRow(m, n) == (n = m.w \/ Untouched(m)) /\ Len(m.rows) < m.cap[1] /\ n <= m.cap[2]
AddRow(m, row) == [m EXCEPT !.rows = Append(@, row), !.w = Len(row)]

CanAddCol(m, n) == n = Len(m.rows) /\ m.w < m.cap[2]
AddCol(m, col) ==
  [m EXCEPT !.rows = [i \in 1..Len(m.rows) |-> Append(m.rows[i], col[i])], !.w = @ + 1]

CanDelRow(m, i) == i < Len(m.rows)            \* indices count from zero
Trim(m) == [m EXCEPT !.cap = ShapeC(m)]
DelRow(m, i) ==
  LET rest == SubSeq(m.rows, 1, i) \o SubSeq(m.rows, i + 2, Len(m.rows))
  IN Trim([m EXCEPT !.rows = rest, !.w = IF rest = <<>> THEN 0 ELSE @])

(* Effect of an operation: the next state, whether it succeeds, what is     *)
(* returned and what is left in the argument.                               *)
Eff(m, ok, ret, rest) == [m |-> m, ok |-> ok, ret |-> ret, rest |-> rest]
DoAddRow(m, row)  == IF CanAddRow(m, Len(row)) THEN Eff(AddRow(m, row), TRUE, <<>>, <<>>) ELSE Eff(m, FALSE, <<>>, <<>>)
DoFlushRow(m, row) == IF CanAddRow(m, Len(row)) THEN Eff(AddRow(m, row), TRUE, <<>>, <<>>) ELSE Eff(m, FALSE, <<>>, row)
DoAddCol(m, col)  == IF CanAddCol(m, Len(col)) THEN Eff(AddCol(m, col), TRUE, <<>>, <<>>) ELSE Eff(m, FALSE, <<>>, col)
DoDelRow(m, i)    == IF CanDelRow(m, i) THEN Eff(DelRow(m, i), TRUE, m.rows[i + 1], <<>>) ELSE Eff(m, FALSE, <<>>, <<>>)
DoTrim(m)         == Eff(Trim(m), TRUE, <<>>, <<>>)

Effect(m, op, arg, i) ==
  CASE op = "add_row"     -> DoAddRow(m, arg)
    [] op = "add_mut_row" -> DoFlushRow(m, arg)
    [] op = "add_col"     -> DoAddCol(m, arg)
    [] op = "del_row"     -> DoDelRow(m, i)
    [] op = "dealloc"     -> DoTrim(m)
=============================================================================
