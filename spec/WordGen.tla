------------------------------ MODULE WordGen ------------------------------
(***************************************************************************)
(* The inputs the implementation is driven with, enumerated from the       *)
(* specification: for every width, addresses and tags of every boundary    *)
(* class of Words (single bits, runs, runs with a hole, alternating bits,  *)
(* just inside and just outside the range), raw words, pairs to compare.   *)
(* Written as JSON to the file named by OUT; DENSE=1 asks for more.        *)
(***************************************************************************)
EXTENDS Words, TLC, Json, IOUtils

Dense == IOEnv.DENSE = "1"
Widths == 48..63
TB(w) == IF w >= 56 THEN 8 ELSE 16

Evens(k) == {b \in Mask(k) : b % 2 = 0}
Odds(k) == {b \in Mask(k) : b % 2 = 1}

\* classes of k-bit words inside an m-bit type
Classes(k, m) ==
    {{}} \cup {{b} : b \in Mask(m)} \cup {Mask(b) : b \in 1..m}
    \cup {Mask(k) \ {b} : b \in Mask(k)} \cup {Evens(k), Odds(k), Mask(m), Mask(m) \ Mask(k)}
    \cup {{b, k-1} : b \in Mask(k)} 

\* words without any pattern
Mix(i) == {b \in Mask(64) : ((i * 37 + b * b * (i + 11) + b * 29) % 97) % 2 = 0}
Mixes == IF Dense THEN 1..200 ELSE 1..24

Ptrs(w) == Classes(w, 64)
Tags(w) == IF TB(w) = 8 THEN SUBSET Mask(8) ELSE Classes(64 - w, 16)

FewTags(w) == {{}, Mask(64 - w), {63 - w}} \cup
    (IF Dense THEN {{0}, Evens(64 - w), Mask(64 - w) \ {0}} \cup {{b} : b \in Mask(TB(w)) \ Mask(64 - w)} ELSE {})
FewPtrs(w) == {{12}, Mask(w), Evens(w)} \cup
    (IF Dense THEN {{}, {w-1}, {0}, {w}, {63}, Odds(w)} ELSE {})

Pairs(w) == (Ptrs(w) \X FewTags(w)) \cup (FewPtrs(w) \X Tags(w))
            \cup {<<Mix(i) \cap Mask(w), Mix(i + 300) \cap Mask(64 - w)>> : i \in Mixes}

Raws(w) == Classes(w, 64) \cup {Mask(64) \ Mask(b) : b \in 1..63} \cup {Odds(64), Evens(64)} \cup {Mix(i) : i \in Mixes}

CmpBase(w) == {{}, {0}, {w-1}, {w}, {63}, Mask(w), Mask(64), {0, w}, {1, w}, {w-1, 63}, {0, w-1},
               Mask(64) \ Mask(w), Evens(w), Odds(64)} \cup
              (IF Dense THEN {{b} : b \in Mask(64)} ELSE {{b} : b \in {3, 7, 8, 15, 16, 31, 32, 40, 47}})
Flip(x, b) == (x \ {b}) \cup ({b} \ x)
Cmps(w) == CmpBase(w) \X CmpBase(w)
           \cup UNION {{<<x, Flip(x, b)>>, <<Flip(x, b), x>>} : x \in {{}, Mask(64), Mix(1), Mix(2)}, b \in Mask(64)}
           \cup {<<Mix(i), Mix(j)>> : i, j \in IF Dense THEN 1..40 ELSE 1..10}

Fmts(w) == IF Dense THEN Raws(w) ELSE CmpBase(w) \cup {Mix(i) : i \in 1..6}

\* placeholder pointers: log2 of the alignment, tags
Dangs(w) == ((0..29) \X (FewTags(w) \cup {{b} : b \in Mask(TB(w)) \ Mask(64 - w)}))
            \cup ({0, 6} \X Tags(w))

\* box constructors are tried with every tag
BoxTags(w) == Tags(w)

All == [i \in 1..Cardinality(Widths) |->
    LET w == 47 + i IN
    [w |-> w, pairs |-> Pairs(w), raws |-> Raws(w), cmps |-> Cmps(w), fmts |-> Fmts(w),
     dangs |-> Dangs(w), boxtags |-> BoxTags(w)]]

ASSUME JsonSerialize(IOEnv.OUT, All)
=============================================================================
