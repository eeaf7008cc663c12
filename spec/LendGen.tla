------------------------------ MODULE LendGen ------------------------------
(***************************************************************************)
(* All programs of Lend up to a length, next to what really happens to     *)
(* memory: which values are there, and what a reference that is followed   *)
(* leads to.                                                               *)
(***************************************************************************)
EXTENDS Lend, TLC, Json

CONSTANT MaxOps
VARIABLES prog, alive, version, ref, kept, bad
vars == <<prog, alive, version, ref, kept, bad>>

\* ref, kept: <<>>, or <<value, its version when it was borrowed>>
Init == prog = <<>> /\ alive = {1} /\ version = <<0, 0>> /\ ref = <<>> /\ kept = <<>> /\ bad = FALSE
Dangles(r) == r # <<>> /\ (r[1] \notin alive \/ version[r[1]] # r[2])
Step(o) ==
    /\ Len(prog) < MaxOps /\ Can(After(Start, prog), o)
    /\ prog' = Append(prog, o)
    /\ alive' = CASE o = "open" -> alive \cup {2} [] o = "close" -> alive \ {2} [] OTHER -> alive
    /\ version' = CASE o = "write1" -> [version EXCEPT ![1] = @ + 1] [] o = "write2" -> [version EXCEPT ![2] = @ + 1] [] OTHER -> version
    /\ ref' = CASE o = "lend1" -> <<1, version[1]>> [] o = "lend2" -> <<2, version[2]>> [] o = "take" -> <<>> [] OTHER -> ref
    /\ kept' = IF o = "take" THEN ref ELSE kept
    /\ bad' = (bad \/ (o \in {"use", "view", "clone", "take"} /\ Dangles(ref)) \/ (o = "useTaken" /\ Dangles(kept)))
Next == \E o \in Ops : Step(o)
Spec == Init /\ [][Next]_vars

\* a program that compiles never looks at what is gone or was written over; every other one does
Sound == Lent(prog) => ~bad
Complete == bad \/ Lent(prog)
\* no chain of conversions makes anything live longer
Never == \A b \in Behind, x \in Lifetimes, y \in Lifetimes : Converts(b, x, y) => Outlives(x, y)
Chain == \A b \in Behind, c \in Behind, x \in Lifetimes, y \in Lifetimes, z \in Lifetimes :
            Converts(b, x, y) /\ Converts(c, y, z) => Outlives(x, z)

Emit == PrintT("LEND " \o ToJson(prog'))
=============================================================================
