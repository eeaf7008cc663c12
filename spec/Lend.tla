-------------------------------- MODULE Lend --------------------------------
(***************************************************************************)
(* Boxes of enums that borrow (C16): a box is bound to what its enum       *)
(* borrows, like the enum itself.                                          *)
(*                                                                         *)
(* Lifetimes are numbers, the longest is 1.  Two values are borrowed from: *)
(* v1 all the way, v2 in an inner scope.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT LendBug       \* "none", or a fault the design model has to notice

(***************************************************************************)
(* Conversions of types                                                    *)
(***************************************************************************)
Lifetimes == 1..3
Outlives(a, b) == a <= b
Behind == {"value", "shared", "exclusive", "vec", "cell"}
\* a box of an enum that borrows for a, behind something, as one that borrows for b
Converts(behind, a, b) ==
    IF LendBug = "turned" THEN Outlives(b, a)
    ELSE IF behind \in {"exclusive", "cell"} THEN a = b ELSE Outlives(a, b)

(***************************************************************************)
(* Programs                                                                *)
(***************************************************************************)
Ops == {"open", "close", "lend1", "lend2", "use", "view", "clone", "take", "useTaken", "write1", "write2"}
Start == [open |-> FALSE, box |-> 0, taken |-> 0, took |-> FALSE, good |-> TRUE, opened |-> FALSE]

\* o may come next
Can(s, o) ==
    CASE o = "open" -> ~s.open /\ ~s.opened
      [] o \in {"close", "write2"} -> s.open
      [] o = "lend1" -> ~s.took
      [] o = "lend2" -> s.open /\ ~s.took
      [] o \in {"use", "view", "clone"} -> ~s.took
      [] o = "take" -> ~s.took
      [] o = "useTaken" -> s.took
      [] o = "write1" -> TRUE

\* box, taken: 0 borrows nothing, 1 or 2 from v1 or v2, 3 from what is gone or was written over
Gone(h, v) == IF h = v THEN 3 ELSE h
Do(s, o) ==
    CASE o = "open" -> [s EXCEPT !.open = TRUE, !.opened = TRUE]
      [] o = "close" -> [s EXCEPT !.open = FALSE, !.box = Gone(@, 2), !.taken = Gone(@, 2)]
      [] o = "lend1" -> [s EXCEPT !.box = 1]
      [] o = "lend2" -> [s EXCEPT !.box = 2]
      [] o \in {"use", "view", "clone"} -> [s EXCEPT !.good = @ /\ (s.box # 3 \/ LendBug = "blind")]
      [] o = "take" -> [s EXCEPT !.taken = s.box, !.box = 0, !.took = TRUE, !.good = @ /\ (s.box # 3 \/ LendBug = "blind")]
      [] o = "useTaken" -> [s EXCEPT !.good = @ /\ s.taken # 3]
      [] o = "write1" -> [s EXCEPT !.box = Gone(@, 1), !.taken = Gone(@, 1)]
      [] o = "write2" -> [s EXCEPT !.box = Gone(@, 2), !.taken = Gone(@, 2)]

RECURSIVE After(_, _)
After(s, p) == IF p = <<>> THEN s ELSE After(Do(s, Head(p)), Tail(p))
Lent(p) == After(Start, p).good
=============================================================================
