------------------------------ MODULE HistGen ------------------------------
(***************************************************************************)
(* Histories for the real code.  A state is abstracted to what decides     *)
(* which operations are permitted: the kind of every slot, the shape of    *)
(* its variant (u none, s a single payload, m several fields, bad) and     *)
(* which slots share storage.  In the exhaustive mode every edge of the    *)
(* abstract state graph is printed; the runner covers all of them with     *)
(* histories.  In simulation mode whole walks are printed.                 *)
(***************************************************************************)
EXTENDS TaggedBoxMC, Json, TLCExt

Shapes == <<"unit", "num", "pair">>
Shapes1 == <<"num">>

A(sl, hp) ==
    <<[s \in Slots |-> <<sl[s].k, IF sl[s].k = "none" THEN "" ELSE Class(Content(sl, hp, s))>>],
      {e \in Slots \X Slots : e[1] < e[2] /\ Block(sl, e[1]) # {} /\ Block(sl, e[1]) = Block(sl, e[2])}>>
GView == A(slot, heap)

Emit == PrintT("EDGE " \o ToJson([f |-> A(slot, heap), o |-> last', t |-> A(slot', heap')]))

WalkLen == 60
Walk == TLCGet("level") < WalkLen \/ PrintT("WALK " \o ToJson([i \in 1..(Len(Trace) - 1) |-> Trace[i + 1].last]))
=============================================================================
