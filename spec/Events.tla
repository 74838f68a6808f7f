------------------------------- MODULE Events -------------------------------
(***************************************************************************)
(* Replay of recorded events.  Every event of the trace file becomes an    *)
(* initial state; the single step evaluates the specification's verdict    *)
(* on it.  A module that extends this one defines Verdict(e).              *)
(* A verdict is "ok", "known" (a recorded known finding) or a reason.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NEvents == Len(Trace)

(* results of calls *)
Ok(r) == r.t = "ok"
Panicked(r) == r.t = "panic"
Failed(r) == r.t = "err"
Is(r, v) == r.t = "ok" /\ r.v = v
ErrIs(r, e) == r.t = "err" /\ r.e = e
=============================================================================
