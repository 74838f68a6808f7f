----------------------------- MODULE TR_IdxFile -----------------------------
(***************************************************************************)
(* Recorded batches of image files whose bytes follow a formula.  Pixels   *)
(* are recorded times 255 * 64, labels times 64.                           *)
(***************************************************************************)
EXTENDS IdxFile, Events

VARIABLES l, i, k, v

(* pos: which pixels were recorded, all of them or some of a large file *)
Image(f, pos, n, p) ==
  /\ p.maps = 1 /\ p.sh = <<28, 28>> /\ p.len = 784 /\ Len(p.pix) = Len(pos)
  /\ \A j \in 1..Len(pos) : p.pix[j] = 64 * Pixel(f, n, pos[j])
Target(f, n, p) == p.label = [j \in 1..10 |-> IF j - 1 = Label(f, n) THEN 64 ELSE 0]

OpVerdict(e, o, b) ==
  CASE Panicked(o.r) -> "panic"
    [] Len(o.r.v) # b -> "number of points"
    [] o.at # Counter(k + b) -> "position counter"
    [] \E j \in 1..b : ~Image(e.f, e.pos, k + j - 1, o.r.v[j]) -> "image"
    [] \E j \in 1..b : ~Target(e.f, k + j - 1, o.r.v[j]) -> "label"
    [] OTHER -> "todo"

Init == l \in 1..NEvents /\ i = 0 /\ k = Trace[l].start /\ v = "todo"
Next ==
  /\ v = "todo" /\ l' = l
  /\ LET e == Trace[l] IN
     IF i = Len(e.ops) THEN v' = "ok" /\ UNCHANGED <<i, k>>
     ELSE LET o == e.ops[i + 1]
              b == Batch(k, Records(e.images, e.labels), o.n)
          IN i' = i + 1 /\ k' = k + b /\ v' = OpVerdict(e, o, b)
Accepted == v \in {"todo", "ok", "known"}
=============================================================================
