----------------------------- MODULE TraitsGen ------------------------------
EXTENDS Traits, TLC, Json
VARIABLE x
RECURSIVE Seq0(_)
Seq0(S) == IF S = {} THEN <<>> ELSE LET a == CHOOSE a \in S : TRUE IN <<a>> \o Seq0(S \ {a})
Init == \E p \in Declarations : x = p /\ PrintT("DECL " \o ToJson([d |-> Seq0(p[1]), h |-> Seq0(p[2])]))
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
\* Copy handles are the ones that may be duplicated bitwise: never more than the enum
NoMore == AtLeast(x[1] \cup x[2]) \subseteq AtMost(x[1] \cup x[2]) /\ OfContainer(x[1]) \subseteq AtLeast(x[1] \cup x[2])
=============================================================================
