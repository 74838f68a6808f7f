---------------------------- MODULE MC_Container ----------------------------
(***************************************************************************)
(* All histories of matrix updates over small capacities.  Each step also  *)
(* prints its history, which is replayed on the code.                      *)
(***************************************************************************)
EXTENDS Container, TLC, Json

CONSTANTS MaxR, MaxC,      \* capacities
          MaxLen           \* lengths of rows and columns, row indices
VARIABLES m, init, hist, last

Fresh(n) == [i \in 1..n |-> 100 * Len(hist) + i]
Lengths(m0) == 0..MaxLen
Ops == {"add_row", "add_mut_row", "add_col", "del_row"}

Init ==
  /\ hist = <<>> /\ last = <<"init", TRUE>>
  /\ \/ \E r \in 0..MaxR, c \in 0..MaxC :
          m = NewC(<<r, c>>) /\ init = [how |-> "cap", r |-> r, c |-> c]
     \/ \E r \in 1..MaxR, c \in 1..MaxC :
          m = FromC([i \in 1..r |-> [j \in 1..c |-> -(10 * i + j)]], c) /\ init = [how |-> "body", r |-> r, c |-> c]

(* A refused operation changes nothing and leaves its argument.  Additions   *)
(* keep what was there and the capacity; a deletion removes one row only and *)
(* leaves no spare capacity.                                                 *)
Lawful(a, op, arg, n, e) ==
  /\ ~e.ok => e.m = a /\ (op \in {"add_mut_row", "add_col"} => e.rest = arg)
  /\ (e.ok /\ op \in {"add_mut_row", "add_col"}) => e.rest = <<>>
  /\ (e.ok /\ op \in {"add_row", "add_mut_row"}) =>
        /\ BodyC(e.m) = BodyC(a) \o arg /\ e.m.cap = a.cap /\ Len(e.m.rows) = Len(a.rows) + 1
  /\ (e.ok /\ op = "add_col") =>
        /\ e.m.cap = a.cap
        /\ \A k \in 1..Len(a.rows) : SubSeq(e.m.rows[k], 1, a.w) = a.rows[k] /\ e.m.rows[k][a.w + 1] = arg[k]
  /\ (e.ok /\ op = "del_row") =>
        /\ e.m.cap = ShapeC(e.m) /\ Len(e.m.rows) + 1 = Len(a.rows)
        /\ BodyC(e.m) = SubSeq(BodyC(a), 1, n * a.w) \o SubSeq(BodyC(a), (n + 1) * a.w + 1, Len(BodyC(a)))

Step(op, n) ==
  LET arg == IF op \in {"del_row", "dealloc"} THEN <<>> ELSE Fresh(n)
      e == Effect(m, op, arg, n)
      h == Append(hist, [op |-> op, n |-> n])
  IN /\ ~(op = "add_col" /\ Len(m.rows) = 0 /\ n = 0)     \* no column without rows
     /\ m' = e.m /\ hist' = h /\ init' = init
     /\ last' = <<op, e.ok>>
     /\ Assert(Lawful(m, op, arg, n, e), <<"unlawful step", m, op, n>>)
     /\ PrintT(ToJson([init |-> init, ops |-> h]))

Next == \/ \E op \in Ops, n \in 0..MaxLen : Step(op, n)
        \/ Step("dealloc", 0)

(* one representative history per shape, capacity and kind of last step *)
View == <<ShapeC(m), m.cap, init, last>>

Sound == WellFormed(m)
=============================================================================
