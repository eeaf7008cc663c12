------------------------------- MODULE Traits -------------------------------
(***************************************************************************)
(* Which traits box and container have (C16): the box those of the enum,   *)
(* the container those derived in the declaration.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Derivable == {"Clone", "Copy", "PartialEq", "Eq", "PartialOrd", "Ord", "Debug"}
ByHand == Derivable \cup {"Display"}
Needs == [t \in ByHand |->
    CASE t = "Copy" -> {"Clone"} [] t = "Eq" -> {"PartialEq"} [] t = "PartialOrd" -> {"PartialEq"}
      [] t = "Ord" -> {"Eq", "PartialOrd"} [] OTHER -> {}]
Closed(S) == \A t \in S : Needs[t] \subseteq S

\* (printing a box asks for an enum that is Clone, too)
AtLeast(traits) == IF "Clone" \in traits THEN traits ELSE traits \ {"Debug", "Display"}
AtMost(traits) == traits

\* a declaration: what is derived for both, and what the enum alone has by hand
Declarations == {<<d, h>> : d \in {S \in SUBSET Derivable : Closed(S) /\ S = AtLeast(S)}, h \in {{}, {"Display"}}}
           \cup {<<{}, h>> : h \in {S \in SUBSET ByHand : Closed(S)}}

OfContainer(derived) == derived
Ran(s) == {s[i] : i \in DOMAIN s}
=============================================================================
