------------------------------ MODULE ConstGen ------------------------------
(***************************************************************************)
(* Programs with constants and run-time expressions over small words: what *)
(* is written, compiled and run.  Every context and function that go       *)
(* together become questions to the real compiler.                         *)
(***************************************************************************)
EXTENDS Constants, TLC, Json

CONSTANTS N, WMin, WMax, MaxLen

VARIABLES w, stage, prog, consts, got
vars == <<w, stage, prog, consts, got>>

Exprs(v) == {e \in [f : Functions, k : 0..(v - 1), p : {{}, {0}, Mask(v)}, d : {{}, {0}, Mask(N - v), Mask(N - v + 1)}, x : {{}, {0, v}, Mask(N)}] :
                /\ e.f = "store" => e.d \subseteq Mask(N - v)
                \* what a function does not look at is left out
                /\ e.f # "store" => e.p = {}
                /\ e.f \in {"fetch", "strip", "rebuilt"} => e.d = {} /\ e.k = 0
                /\ e.f \in {"placeholder", "placeholdertag", "placeholderaddr", "boxtag", "store"} \cup Pointers => e.x = {}
                /\ e.f = "store" => e.k = 0}

Init == w \in WMin..WMax /\ stage = "writing" /\ prog = <<>> /\ consts = <<>> /\ got = <<>>
Write == /\ stage = "writing" /\ Len(prog) < MaxLen
         /\ \E e \in Exprs(w), ctx \in Contexts : Fits(ctx, e.f) /\ prog' = Append(prog, [e |-> e, ctx |-> ctx])
         /\ UNCHANGED <<w, stage, consts, got>>
Compile == /\ stage = "writing" /\ prog # <<>>
           /\ consts' = [i \in DOMAIN prog |-> ByCompiler(N, w, prog[i].ctx, prog[i].e)]
           /\ stage' = IF \A i \in DOMAIN prog : consts'[i].ok \/ (Bug = "later" /\ prog[i].ctx = "assoc") THEN "compiled" ELSE "rejected"
           /\ UNCHANGED <<w, prog, got>>
Run == /\ stage = "compiled" /\ got' = [i \in DOMAIN prog |-> Eval(N, w, prog[i].e)] /\ stage' = "ran" /\ UNCHANGED <<w, prog, consts>>
Next == Write \/ Compile \/ Run
Spec == Init /\ [][Next]_vars

\* a program that runs contains nothing that had to be refused
NothingRefusedRuns == stage \in {"compiled", "ran"} => \A i \in DOMAIN prog : Eval(N, w, prog[i].e).ok
\* and only what has to be refused is
OnlyMisfits == stage = "rejected" => \E i \in DOMAIN prog : ~TagFits(N, w, prog[i].e.d)
\* constants are what the program computes when it runs
Same == stage = "ran" => consts = got
\* a word in a constant is taken apart to what it was made of
Apart == stage = "ran" => \A i \in DOMAIN prog :
    LET e == prog[i].e IN e.f \in {"placeholder", "store"} =>
        /\ FetchTag(w, consts[i].v) = e.d
        /\ StripTag(w, consts[i].v) = IF e.f = "store" THEN e.p ELSE {e.k}

Emit == prog' # prog /\ Len(prog') = 1 => PrintT("ASK " \o ToJson([ctx |-> prog'[1].ctx, f |-> prog'[1].e.f]))
=============================================================================
