----------------------------- MODULE AutoTrait -----------------------------
(***************************************************************************)
(* What may cross threads (C15).  A record of the trace lists the kinds of *)
(* the payloads of an enum and what the compiler says of the enum, its     *)
(* box and its container.  An enum can be sent (shared) exactly when all   *)
(* its payloads can; box and container exactly when the enum can.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

\* payload kinds: can be sent, can be shared
Table == [
    plain |-> <<TRUE, TRUE>>, cell |-> <<TRUE, FALSE>>, guard |-> <<FALSE, TRUE>>, rc |-> <<FALSE, FALSE>> ]
AllCan(kinds, i) == \A k \in DOMAIN kinds : Table[kinds[k]][i]

Viol(what) == PrintT("VIOL " \o ToJson(<<"auto", l, what>>))
Same(e, i, who, name) ==
    IF e[who][i] = AllCan(e.kinds, i) THEN TRUE
    ELSE Viol(<<name, IF i = 1 THEN "Send" ELSE "Sync", "is", e[who][i], "for an enum of", e.kinds>>)

Init == l = 1
Next ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET e == Trace[l] IN
       \* what the compiler says of the enum itself is not the library's doing: it has to agree
       /\ Assert(e.enum = <<AllCan(e.kinds, 1), AllCan(e.kinds, 2)>>, <<"the table is wrong", e>>)
       /\ \A i \in {1, 2} : Same(e, i, "box", "the box") /\ Same(e, i, "cont", "the container")
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
