------------------------------ MODULE EnumCmp ------------------------------
(***************************************************************************)
(* How the comparisons of an enum behave.  Derived ones: equal variants     *)
(* compare field by field, different ones by their position; and one        *)
(* example of comparisons written by hand.  Field values are                *)
(* numbered by tokens; the class of a field says how its values compare:   *)
(*    tot   totally ordered, in the order of the tokens                    *)
(*    one   a type with a single value                                     *)
(*    nan   totally ordered, but token 0 compares with nothing             *)
(*    half  a comparison that depends on the order of the operands: equal  *)
(*          when the left is not greater, incomparable when it is          *)
(* Orders are -1, 0, 1 and 2 for incomparable.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences

Sign(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
B(x) == IF x THEN 1 ELSE 0

FieldEq(c, a, b) ==
    CASE c = "one" -> TRUE
      [] c = "nan" -> a = b /\ a # 0
      [] c = "half" -> a <= b
      [] OTHER -> a = b

FieldOrd(c, a, b) ==
    CASE c = "one" -> 0
      [] c = "nan" -> IF a = 0 \/ b = 0 THEN 2 ELSE Sign(a - b)
      [] c = "half" -> IF a > b THEN 2 ELSE Sign(a - b)
      [] OTHER -> Sign(a - b)

\* the order decided by the first field that is not equal
RECURSIVE FieldsOrd(_, _, _, _)
FieldsOrd(cls, f, g, i) ==
    IF i > Len(cls) THEN 0
    ELSE LET o == FieldOrd(cls[i], f[i], g[i])
         IN IF o # 0 THEN o ELSE FieldsOrd(cls, f, g, i + 1)

\* D describes the variants in declaration order: cls (how the fields compare),
\* how ("derived", or "key" for an enum with comparisons written by hand: by
\* rank, highest first, then by the sum of the field tokens) and rank.
\* Values are variants v, w (positions from 0) with tokens f, g.
RECURSIVE Sum(_, _)
Sum(f, i) == IF i > Len(f) THEN 0 ELSE f[i] + Sum(f, i + 1)
EnumOrd(D, v, f, w, g) ==
    IF D[v + 1].how = "key"
    THEN IF D[v + 1].rank # D[w + 1].rank THEN Sign(D[w + 1].rank - D[v + 1].rank) ELSE Sign(Sum(f, 1) - Sum(g, 1))
    ELSE IF v # w THEN Sign(v - w) ELSE FieldsOrd(D[v + 1].cls, f, g, 1)
EnumEq(D, v, f, w, g) ==
    IF D[v + 1].how = "key" THEN EnumOrd(D, v, f, w, g) = 0
    ELSE v = w /\ \A i \in DOMAIN D[v + 1].cls : FieldEq(D[v + 1].cls[i], f[i], g[i])

\* the comparisons in the order in which they are recorded: ==, !=, <, <=, >,
\* >=, partial_cmp, cmp, cmp and partial_cmp through references
Comparisons(D, v, f, w, g) ==
    LET q == EnumEq(D, v, f, w, g)
        o == EnumOrd(D, v, f, w, g)
    IN <<B(q), B(~q), B(o = -1), B(o \in {-1, 0}), B(o = 1), B(o \in {0, 1}), o, o, o, o>>

\* which of two values max, min, clamp to an interval of one value, max_by and
\* the maximum of a sequence choose: the first (1) or the second (2)
Choices(D, v, f, w, g) ==
    LET o == EnumOrd(D, v, f, w, g)
        max == IF o = 1 THEN 1 ELSE 2
    IN <<max, IF o = 1 THEN 2 ELSE 1, IF o = 0 THEN 1 ELSE 2, max, max>>
=============================================================================
