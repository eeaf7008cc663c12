----------------------------- MODULE ConstTrace -----------------------------
(***************************************************************************)
(* Judges constants computed by the real compiler (C18): accepted or not,  *)
(* their values, and what the same expression gives when it runs.          *)
(***************************************************************************)
EXTENDS Constants, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

S(q) == {q[i] : i \in DOMAIN q}
Viol(what) == PrintT("VIOL " \o ToJson(<<"const", l, what>>))
Check(ok, what) == IF ok THEN TRUE ELSE Viol(what)

Judge(r) ==
    LET e == [f |-> r.f, k |-> r.k, p |-> S(r.p), d |-> S(r.d), x |-> S(r.x)]
        want == Eval(64, r.w, e)
        name == <<r.f, r.ctx, "width", r.w, r.profile>>
    IN
    /\ Check(r.accepted = want.ok, <<name, IF r.accepted THEN "accepted but out of range" ELSE "does not compile", r.k, r.d>>)
    /\ IF ~want.ok \/ ~r.accepted \/ ~r.ran THEN TRUE ELSE
        LET v == S(r.value)  a == StripTag(r.w, v) IN
        \* which aligned address a placeholder has is the implementation's choice
        /\ CASE e.f = "placeholder" -> Check(FetchTag(r.w, v) = e.d /\ AlignedNonNull(e.k, a), <<name, "placeholder with another tag, null or misaligned", r.value>>)
             [] e.f \in Pointers \cup {"placeholderaddr"} -> Check(AddrFits(r.w, v) /\ AlignedNonNull(e.k, v), <<name, "placeholder null or misaligned", r.value>>)
             [] OTHER -> Check(v = want.v, <<name, "is", r.value, "not", want.v>>)
        /\ Check(r.run.ok /\ S(r.run.v) = v, <<name, "constant", r.value, "but when it runs", r.run>>)

Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Judge(Trace[l])
TraceSpec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
