----------------------------- MODULE ScopeTrace -----------------------------
(***************************************************************************)
(* Judges what the compiler said of declarations and namings, and what the *)
(* programs gave back when they were run (C17).                            *)
(***************************************************************************)
EXTENDS Scope, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Viol(what) == PrintT("VIOL " \o ToJson(<<"scope", l, what>>))

Judge(e) ==
    CASE e.what = "name" ->
           LET ok == MayName(e.decl, e.from, e.item) IN
           ok = e.accepted \/ Viol(<<e.item, IF e.accepted THEN "can be named" ELSE "cannot be named", "declared", e.decl, "named in", e.from>>)
      [] e.what = "place" ->
           Fits(e.world, e.path) => e.accepted \/ Viol(<<"declaration refused", e.world, e.path, e.names, e.called>>)
      \* an attribute of the declaration is one of both the container and the enum
      [] e.what = "attribute" -> e.noticed = Carries(e.given) \/ Viol(<<e.item, IF e.noticed THEN "has" ELSE "lacks", e.attribute>>)
      \* what went in: the positions, the fields, one after the other
      [] e.what = "run" -> e.out = e.into \/ Viol(<<"gives back", e.out, "not", e.into, e.world, e.path, e.names, e.called>>)

Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Judge(Trace[l])
TraceSpec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
