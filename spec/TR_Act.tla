------------------------------- MODULE TR_Act -------------------------------
(***************************************************************************)
(* Recorded activation values and derivatives.  An event holds a vector of *)
(* arguments zs (fixed point, times 2^e) and the vectors every form gave.  *)
(***************************************************************************)
EXTENDS WideAct, Events

VARIABLES l, v

Sat == 40 * FB
Split(f) == f \in {"RITSigmoid", "RITTanh"}
(* one part times 2^e, saturated *)
RECURSIVE Shift(_, _)
Shift(x, e) ==
  IF e = 0 \/ x = 0 THEN x
  ELSE IF e < 0 THEN Shift(x \div 2, e + 1)
  ELSE IF x >= Sat \/ x <= -Sat THEN (IF x > 0 THEN Sat ELSE -Sat)
  ELSE Shift(2 * x, e - 1)
(* the other functions are homogeneous: the recorded values are scaled back *)
Arg(e, z) == IF Split(e.f) THEN <<Shift(z[1], e.e), Shift(z[2], e.e)>> ELSE z

Want(e, k) ==
  LET z == Arg(e, e.zs[k])
  IN CASE e.ev = "value" -> FAct(e.f, z)
       [] e.ev = "deriv" -> FD(e.f, z)
       [] e.ev = "cderiv" -> FDC(e.f, z)
Tol(e) == IF e.ev = "value" THEN 40 ELSE 120
(* the forms that give a wrong value; a value is computed once for all forms *)
BadForms(e) ==
  LET whole == {j \in 1..Len(e.forms) : Ok(e.forms[j].r) /\ Len(e.forms[j].r.v) = Len(e.zs)}
      wrong(k) == LET w == Want(e, k) IN {j \in whole : ~FCNear(e.forms[j].r.v[k], w, Tol(e))}
  IN ((1..Len(e.forms)) \ whole) \cup UNION {wrong(k) : k \in 1..Len(e.zs)}

(* double precision *)
WWant(e, k) ==
  CASE e.ev = "wvalue" -> WAct(e.f, e.zs[k])
    [] e.ev = "wderiv" -> WD(e.f, e.zs[k])
    [] e.ev = "wcderiv" -> WDC(e.f, e.zs[k])
WBadForms(e) ==
  LET whole == {j \in 1..Len(e.forms) : Ok(e.forms[j].r) /\ Len(e.forms[j].r.v) = Len(e.zs)}
      wrong(k) == LET w == WWant(e, k) IN {j \in whole : ~WCNear(e.forms[j].r.v[k], w, 2048)}
  IN ((1..Len(e.forms)) \ whole) \cup UNION {wrong(k) : k \in 1..Len(e.zs)}

(* differences of the code's own values (f64): fd[k][j] for direction j *)
Dirs == <<<<1, 0>>, <<0, 1>>, <<1, 1>>, <<-1, 2>>>>
DiffOk(e) ==
  \A k \in 1..Len(e.zs) : \A j \in 1..4 :
     LET h == <<FInt(Dirs[j][1]), FInt(Dirs[j][2])>>
         lin == FCAdd(FCMul(e.d.v[k], h), FCMul(e.dc.v[k], FCConj(h)))
     IN FCNear(e.fd.v[k][j], lin, 400)

Verdict(e) ==
  IF e.ev = "diff"
  THEN (CASE ~(Ok(e.d) /\ Ok(e.dc) /\ Ok(e.fd)) -> "panic in " \o e.f
          [] ~DiffOk(e) -> "derivative is not the slope of the value: " \o e.f
          [] OTHER -> "ok")
  ELSE IF e.ev \in {"wvalue", "wderiv", "wcderiv"}
  THEN LET bad == WBadForms(e)
       IN IF bad = {} THEN "ok" ELSE "digits: " \o e.ev \o " of " \o e.f \o " in form " \o e.forms[CHOOSE k \in bad : TRUE].name
  ELSE LET bad == BadForms(e)
       IN CASE bad # {} -> e.ev \o " of " \o e.f \o " in form " \o e.forms[CHOOSE k \in bad : TRUE].name
            [] e.f = "RITSigmoid" /\ e.ev = "value" /\ ~e.inside -> "sigmoid outside (0, 1)"
            [] OTHER -> "ok"

Init == l \in 1..NEvents /\ v = "todo"
Next == v = "todo" /\ l' = l /\ v' = Verdict(Trace[l])
Accepted == v \in {"todo", "ok", "known"}
=============================================================================
