--------------------------- MODULE TaggedPointer ---------------------------
(***************************************************************************)
(* A register holding a tagged pointer, over words of N bits of which the  *)
(* low w are the address.  Explored exhaustively for a small N and every   *)
(* width; `want' is a history variable remembering what was packed.        *)
(***************************************************************************)
EXTENDS Words

CONSTANTS
    N,          \* word length
    TagBits,    \* length of the tag type (>= N - w for every width explored)
    WMin, WMax  \* the widths explored: the configuration is chosen initially

VARIABLES w, reg, want, refused

vars == <<w, reg, want, refused>>

Words_ == SUBSET Mask(N)
TagVals == SUBSET Mask(TagBits)

Init ==
    /\ w \in WMin..WMax
    /\ reg = {}
    /\ want = [p |-> {}, d |-> {}]
    /\ refused = FALSE

\* new: both checks precede the packing
New(p, d) ==
    IF TagFits(N, w, d) /\ AddrFits(w, p)
    THEN /\ reg' = StoreTag(N, w, p, d)
         /\ want' = [p |-> p, d |-> d]
         /\ refused' = FALSE
         /\ UNCHANGED w
    ELSE /\ refused' = TRUE
         /\ UNCHANGED <<w, reg, want>>

\* dangling: the address is the alignment 2^k
Dangling(k, d) == k < w /\ New({k}, d)

\* unpack and pack again (into_raw followed by from_raw)
Repack == New(StripTag(w, reg), FetchTag(w, reg))

Next ==
    \/ \E p \in Words_, d \in TagVals : New(p, d)
    \/ \E k \in 0..(N-1), d \in TagVals : Dangling(k, d)
    \/ Repack

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* C01
RoundTrip ==
    /\ FetchTag(w, reg) = want.d
    /\ StripTag(w, reg) = want.p

\* the same on arbitrary words: taking a word apart and packing it again
AnyWord == \A x \in Words_ :
    /\ StoreTag(N, w, StripTag(w, x), FetchTag(w, x)) = x
    /\ AddrFits(w, StripTag(w, x))
    /\ TagFits(N, w, FetchTag(w, x))

\* C02: a refused construction changes nothing, and only misfits are refused
RefusedKeeps == [][refused' => reg' = reg]_vars
RepackAccepted == [][Repack => ~refused']_vars
OnlyInRange == TagFits(N, w, want.d) /\ AddrFits(w, want.p)

\* C14: the packed word determines the pair, and orders by tag then address
Injective == reg = {} => \A p, q \in SUBSET Mask(w), d, e \in SUBSET Mask(N - w) :
    LET x == StoreTag(N, w, p, d)
        y == StoreTag(N, w, q, e)
    IN  /\ (x = y) = (p = q /\ d = e)
        /\ CmpW(x, y) = IF d = e THEN CmpW(p, q) ELSE CmpW(d, e)
=============================================================================
