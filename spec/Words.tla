------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Machine words as sets of bit positions, and the packing of an address   *)
(* and a tag into one word.  A word is the set of the positions of its one *)
(* bits, so that OR, AND and shifts are union, intersection and image; no  *)
(* integer ever exceeds TLC's range, and the same definitions serve        *)
(*   - the exhaustive small-word model (TaggedPointer.tla),                *)
(*   - the symbolic proof over all 64-bit words (WordsApa.tla), and        *)
(*   - the validation of recorded executions (PointerTrace, Trace).        *)
(* Every operator takes the word length n and/or the pointer width w.      *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

\* @type: (Int) => Set(Int);
Mask(k) == 0..(k-1)

\* @type: (Int, Set(Int), Int) => Set(Int);
Shl(n, a, k) == {x + k : x \in a} \cap Mask(n)   \* what leaves the word is lost

\* @type: (Set(Int), Int) => Set(Int);
Shr(a, k) == {x - k : x \in {y \in a : y >= k}}

\* The packing itself: the code's store_discriminant / fetch_ / strip_
\* @type: (Int, Int, Set(Int), Set(Int)) => Set(Int);
StoreTag(n, w, p, d) == p \cup Shl(n, d, w)

\* @type: (Int, Set(Int)) => Set(Int);
FetchTag(w, x) == Shr(x, w)

\* @type: (Int, Set(Int)) => Set(Int);
StripTag(w, x) == x \cap Mask(w)

\* What may be stored
\* @type: (Int, Int, Set(Int)) => Bool;
TagFits(n, w, d) == d \subseteq Mask(n - w)

\* @type: (Int, Set(Int)) => Bool;
AddrFits(w, p) == p \subseteq Mask(w)

\* Aligned to 2^k and not null
\* @type: (Int, Set(Int)) => Bool;
AlignedNonNull(k, p) == p # {} /\ \A b \in p : b >= k

(***************************************************************************)
(* Order of words as unsigned numbers: decided by the highest bit in which *)
(* they differ.                                                            *)
(***************************************************************************)
\* @type: (Set(Int)) => Int;
Top(a) == CHOOSE x \in a : \A y \in a : y <= x

\* @type: (Set(Int), Set(Int)) => Bool;
Less(a, b) ==
    LET diff == (a \ b) \cup (b \ a)
    IN  diff # {} /\ Top(diff) \in b

\* -1, 0, 1
\* @type: (Set(Int), Set(Int)) => Int;
CmpW(a, b) == IF a = b THEN 0 ELSE IF Less(a, b) THEN -1 ELSE 1

=============================================================================
