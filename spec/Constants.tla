------------------------------ MODULE Constants ------------------------------
(***************************************************************************)
(* What the functions that may be used in constants give there (C18).      *)
(*                                                                         *)
(* A program is a list of expressions, each evaluated by the compiler (in  *)
(* some context that wants a constant) or when the program runs.  A refusal *)
(* in a constant is a program that does not compile; at run time it is a   *)
(* panic.  Otherwise both give the same word.                              *)
(***************************************************************************)
EXTENDS Words

CONSTANT Bug           \* "none", or a fault the design model has to notice

Functions == {"placeholder", "placeholdertag", "placeholderaddr", "boxtag", "pointer", "boxpointer", "store", "fetch", "strip", "rebuilt"}
Contexts == {"const", "static", "held", "heldstatic", "assoc", "trait", "length", "argument", "variant", "pattern", "constfn", "inline"}
\* contexts that keep a handle itself, not a number
Keeps == {"held", "heldstatic"}
\* a raw pointer is a constant, its address as a number is not
Pointers == {"pointer", "boxpointer"}
Fits(ctx, f) ==
    /\ ctx \in Keeps => f \in {"placeholder", "placeholdertag", "placeholderaddr", "boxtag"} \cup Pointers
    /\ f \in Pointers => ctx \in Keeps

Refused == [ok |-> FALSE, v |-> {}]
Word(v) == [ok |-> TRUE, v |-> v]

\* e: [f, k, p, d, x]; n bits, the low w of them the address
Eval(n, w, e) ==
    LET made == IF TagFits(n, w, e.d) /\ e.k < w THEN Word(StoreTag(n, w, {e.k}, e.d)) ELSE Refused IN
    CASE e.f = "placeholder" -> made
      [] e.f \in {"placeholdertag", "boxtag"} -> IF made.ok THEN Word(FetchTag(w, made.v)) ELSE made
      [] e.f \in Pointers \cup {"placeholderaddr"} -> IF made.ok THEN Word(StripTag(w, made.v)) ELSE made
      [] e.f = "store" -> Word(StoreTag(n, w, e.p, e.d))
      [] e.f = "fetch" -> Word(FetchTag(w, e.x))
      [] e.f = "strip" -> Word(StripTag(w, e.x))
      [] e.f = "rebuilt" -> Word(StoreTag(n, w, StripTag(w, e.x), FetchTag(w, e.x)))

\* what the compiler gives
ByCompiler(n, w, ctx, e) ==
    LET r == Eval(n, w, e) IN
    CASE Bug = "wraps" /\ ~r.ok -> Word(StoreTag(n, w, {e.k}, e.d))
      [] Bug = "moves" /\ e.f = "placeholder" /\ r.ok -> Word((r.v \ {e.k}) \cup {(e.k + 1) % w})
      [] OTHER -> r
=============================================================================
