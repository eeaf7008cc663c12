-------------------------------- MODULE Scope --------------------------------
(***************************************************************************)
(* Where a declaration may be written and from where what it declares can  *)
(* be named (C17).                                                         *)
(*                                                                         *)
(* A program is a point in a tree of modules, or nested places in one of   *)
(* them, with items of their own; somewhere a declaration is made.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Bug           \* "none", or a fault the design model has to notice

(***************************************************************************)
(* Visibility.  A crate k with modules, and another crate that uses it.    *)
(***************************************************************************)
Modules == {<<"k">>, <<"k", "a">>, <<"k", "a", "b">>, <<"k", "a", "b", "d">>, <<"k", "a", "e">>, <<"k", "x">>}
Other == <<"o">>
Points == Modules \cup {Other}
Within(m, p) == Len(m) <= Len(p) /\ SubSeq(p, 1, Len(m)) = m
Below(m) == {p \in Points : Within(m, p)}
Parent(m) == SubSeq(m, 1, Len(m) - 1)

Levels == {"private", "self", "super", "ina", "crate", "pub"}
May(v, m) == (v = "super" => Len(m) > 1) /\ (v = "ina" => Within(<<"k", "a">>, m))
\* the points that can name an item of module m declared with v
Seen(v, m) ==
    CASE v \in {"private", "self"} -> IF Bug = "open" THEN Below(Parent(m)) ELSE Below(m)
      [] v = "super" -> Below(Parent(m))
      [] v = "ina" -> Below(<<"k", "a">>)
      [] v = "crate" -> Modules
      [] v = "pub" -> IF Bug = "closed" THEN Modules ELSE Points

\* container and enum, with levels of their own: what the container is made of may not be less visible
Decls == {<<m, vc, ve>> \in Modules \X Levels \X Levels :
            May(vc, m) /\ May(ve, m) /\ Seen(vc, m) \subseteq Seen(ve, m)}
MayName(d, p, what) == p \in Seen(IF what = "container" THEN d[2] ELSE d[3], d[1])

(***************************************************************************)
(* Places.  Every one of them may hold a declaration, directly or through  *)
(* further places, whatever items with names of the standard library's,    *)
(* this library's or the documentation's are around, and whatever the      *)
(* payload types are called: a declaration relies on the names of the core *)
(* prelude and of nothing else.  What it stores comes back.                *)
(***************************************************************************)
Places == {"module", "function", "generic", "method", "traitmethod", "block", "closure", "constant", "macro", "unsafe"}
\* "strict": a crate that forbids unsafe code and denies what is deprecated or is to become an error
Worlds == {"std2015", "std2018", "std2021", "std2024", "renamed", "nostd", "strict"}
MaxDepth == 3

\* attributes reach both halves of a declaration
Carries(given) == given

\* nobody can write unsafe code where it is forbidden; a declaration does not do so either
Exists(w, path) == w = "strict" => \A i \in 1..Len(path) : path[i] # "unsafe"
Fits(w, path) == IF Bug = "nonest" THEN Len(path) < 2 ELSE Exists(w, path)
=============================================================================
