------------------------------ MODULE WordsApa ------------------------------
(***************************************************************************)
(* The packing laws for full 64-bit words, decided symbolically            *)
(* (Apalache): for every width 48..63, every address below 2^w, every tag  *)
(* below 2^(64-w) and every raw word.                                      *)
(***************************************************************************)
EXTENDS Words

VARIABLES
    \* @type: Int;
    w,
    \* @type: Set(Int);
    p,
    \* @type: Set(Int);
    d,
    \* @type: Set(Int);
    x

Init ==
    /\ w \in 48..63
    /\ p \in SUBSET (0..63)
    /\ d \in SUBSET (0..15)
    /\ x \in SUBSET (0..63)

Next == UNCHANGED <<w, p, d, x>>

InRange == AddrFits(w, p) /\ TagFits(64, w, d)

Laws ==
    /\ InRange => /\ FetchTag(w, StoreTag(64, w, p, d)) = d
                  /\ StripTag(w, StoreTag(64, w, p, d)) = p
    /\ StoreTag(64, w, StripTag(w, x), FetchTag(w, x)) = x
    /\ AddrFits(w, StripTag(w, x))
    /\ TagFits(64, w, FetchTag(w, x))
    /\ FetchTag(w, x) \subseteq 0..15

\* what the refused cases would do if they were let through: an address that
\* does not fit or a tag that does not fit never survives
Needed ==
    ~InRange => ~(/\ FetchTag(w, StoreTag(64, w, p, d)) = d
                  /\ StripTag(w, StoreTag(64, w, p, d)) = p)
=============================================================================
