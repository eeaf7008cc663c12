------------------------------ MODULE CmpLaws ------------------------------
(***************************************************************************)
(* What EnumCmp promises: derived comparisons of fields that are totally   *)
(* ordered, and the comparisons written by hand, form a total order that   *)
(* agrees with equality; with incomparable values a partial order that is  *)
(* its own dual; the recorded comparisons follow from these two.           *)
(***************************************************************************)
EXTENDS EnumCmp, TLC
CONSTANT Max      \* fields per variant
VARIABLE x        \* <<D, value, value, value>>

Cls == {"tot", "one", "nan"}
Shapes == UNION {[1..n -> Cls] : n \in 0..Max}
Decls == {<<[cls |-> a, how |-> h, rank |-> 0], [cls |-> b, how |-> h, rank |-> r]>> :
            a \in Shapes, b \in Shapes, h \in {"derived", "key"}, r \in {0, 1}}
Tok(c) == IF c = "one" THEN {0} ELSE {0, 1, 2}
Values(D) == UNION {{<<v, t>> : t \in {t \in [1..Len(D[v + 1].cls) -> {0, 1, 2}] : \A i \in DOMAIN t : t[i] \in Tok(D[v + 1].cls[i])}} : v \in {0, 1}}

Init == \E D \in Decls : x = <<D, <<>> >>
Next == Len(x[2]) < 3 /\ \E v \in Values(x[1]) : x' = <<x[1], Append(x[2], v)>>
Spec == Init /\ [][Next]_x

D == x[1]
Ord(a, b) == EnumOrd(D, a[1], a[2], b[1], b[2])
Equal(a, b) == EnumEq(D, a[1], a[2], b[1], b[2])
Total == D[1].how = "key" \/ \A v \in {1, 2} : \A i \in DOMAIN D[v].cls : D[v].cls[i] # "nan"
Dual(o) == IF o = 2 THEN 2 ELSE -o

Laws ==
    Len(x[2]) = 3 =>
      LET a == x[2][1]  b == x[2][2]  c == x[2][3]
          C == Comparisons(D, a[1], a[2], b[1], b[2])
      IN
      /\ Ord(a, b) = Dual(Ord(b, a))
      /\ Equal(a, b) = Equal(b, a)
      /\ Equal(a, b) = (Ord(a, b) = 0)
      /\ Total => Ord(a, b) # 2 /\ Equal(a, a)
      /\ Equal(a, b) /\ Equal(b, c) => Equal(a, c)
      /\ Ord(a, b) = -1 /\ Ord(b, c) \in {-1, 0} => Ord(a, c) = -1
      /\ Ord(a, b) \in {-1, 0} /\ Ord(b, c) = -1 => Ord(a, c) = -1
      /\ C[1] + C[2] = 1 /\ C[3] + C[1] = C[4] /\ C[5] + C[1] = C[6] /\ C[3] + C[5] <= 1
=============================================================================
