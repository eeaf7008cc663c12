------------------------------- MODULE Borrow -------------------------------
(***************************************************************************)
(* What a program may do with handles (C16): the ownership and borrowing   *)
(* discipline the types of the library impose.  A program is a sequence of *)
(* statements on two handles "h" and "g" and references "r" (shared) and   *)
(* "m" (exclusive) that may be taken from them, and "q", taken through "m".  The state says who    *)
(* owns what and which reference is still good; Step gives the state after *)
(* a statement, or Refused when no such program may compile.               *)
(*                                                                         *)
(* Handles: boxes and containers of an enum that is Copy or is not, and    *)
(* tagged pointers (always Copy).  They have no destructor of their own.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Bug          \* "none", or a fault the design model has to notice

Handles == {"h", "g"}
Refs == {"r", "m", "q"}      \* shared, exclusive, shared and taken through the exclusive one
Kinds == {"box", "boxcopy", "cont", "contcopy", "ptr"}

Copyable(k) == k \in {"boxcopy", "contcopy", "ptr"} \/ (Bug = "copybox" /\ k = "box")
\* containers lend nothing
Lends(k) == k \in {"box", "boxcopy", "ptr"}
\* and only boxes are looked into by callbacks
Views(k) == k \in {"box", "boxcopy"}

\* via: what the reference was taken through, the handle itself or the exclusive reference
Nowhere == [on |-> "-", ok |-> TRUE, via |-> "-"]
Refused == [own |-> [x \in Handles |-> "none"], loan |-> [y \in Refs |-> Nowhere], over |-> TRUE, no |-> TRUE]
Start == [own |-> [x \in Handles |-> IF x = "h" THEN "owned" ELSE "none"],
          loan |-> [y \in Refs |-> Nowhere], over |-> FALSE, no |-> FALSE]

(***************************************************************************)
(* The pieces.  Reading a handle ends exclusive loans of it; changing,     *)
(* overwriting or giving it away ends all of them.  An ended loan is an    *)
(* error only if the reference is used again.                              *)
(***************************************************************************)
Spoil(st, x, ys) ==
    [st EXCEPT !.loan = [y \in Refs |-> IF y \in ys /\ Bug # "outlives" /\ @[y].on = x THEN [@[y] EXCEPT !.ok = FALSE] ELSE @[y]]]
\* what excludes reading the handle: exclusive references, and what was taken through them
Exclusive == {"m", "q"}
Read(st, x) == IF st = Refused \/ st.own[x] # "owned" THEN Refused ELSE Spoil(st, x, Exclusive)
Change(st, x) == IF st = Refused \/ st.own[x] # "owned" THEN Refused ELSE Spoil(st, x, Refs)
Give(k, st, x) ==
    IF Copyable(k) THEN Read(st, x)
    ELSE IF st = Refused \/ st.own[x] # "owned" THEN Refused
    ELSE [Spoil(st, x, Refs) EXCEPT !.own[x] = "gone"]
Fill(st, x) == IF st = Refused THEN Refused ELSE [Spoil(st, x, Refs) EXCEPT !.own[x] = "owned"]
Use(st, y) ==
    IF st = Refused \/ ~st.loan[y].ok THEN Refused
    ELSE IF y = "m" /\ st.loan["q"].via = "m" THEN [st EXCEPT !.loan["q"].ok = FALSE]
    ELSE st
Lend(st, x, y) ==
    IF st = Refused THEN Refused
    ELSE IF Bug = "unbound" THEN [st EXCEPT !.loan[y] = Nowhere]
    ELSE [st EXCEPT !.loan = [z \in Refs |-> IF z = y THEN [on |-> x, ok |-> TRUE, via |-> "-"]
                                             \* what was taken through the reference overwritten stays what it is
                                             ELSE IF y = "m" /\ @[z].via = "m" THEN [@[z] EXCEPT !.via = "old"] ELSE @[z]]]
\* a shared reference taken through the exclusive one
Reborrow(st) ==
    IF st = Refused \/ ~st.loan["m"].ok THEN Refused
    ELSE [st EXCEPT !.loan["q"] = [on |-> st.loan["m"].on, ok |-> TRUE, via |-> "m"]]

(***************************************************************************)
(* The statements.                                                         *)
(***************************************************************************)
Step(k, st, op) ==
    LET o == op[1]
        x == op[2]
        y == op[3] IN
    CASE st = Refused -> Refused
      [] o = "read" -> Read(st, x)                              \* print, tag, address, compare with itself
      [] o = "both" -> Read(Read(st, x), y)                     \* compare two handles
      [] o = "take" -> Give(k, st, x)                           \* extract, convert, discard, send away
      [] o = "change" -> Change(st, x)                          \* write through it
      [] o = "swap" -> Change(Change(st, x), y)
      [] o = "assign" -> Fill(st, x)                            \* a new handle in its place
      [] o = "move" -> Fill(Give(k, st, x), y)
      [] o = "clone" -> Fill(Read(st, x), y)
      [] o = "clonefrom" -> IF x = y THEN Refused ELSE Read(Change(st, x), y)
      [] o = "ref" -> Lend(Read(st, x), x, "r")
      [] o = "mref" -> Lend(Change(st, x), x, "m")
      [] o = "use" -> Use(st, x)
      [] o = "reborrow" -> Reborrow(st)
      [] o = "view" -> Read(st, x)
      [] o = "escape" -> Refused                                \* the value shown may not leave the callback
      [] o = "viewtake" -> IF x = y /\ ~Copyable(k) THEN Refused ELSE Give(k, Read(st, x), y)
      [] o = "viewchange" -> IF x = y THEN Refused ELSE Change(Read(st, x), y)
      [] o = "viewuse" -> Use(Read(st, x), y)
      [] o = "end" -> [Spoil(Spoil(st, "h", Refs), "g", Refs) EXCEPT !.over = TRUE]  \* the handles' scope ends

Ops(k) ==
    LET two(o) == {<<o, x, y>> : x \in Handles, y \in Handles}
        one(o) == {<<o, x, "-">> : x \in Handles} IN
    one("read") \cup one("take") \cup one("change") \cup one("assign") \cup two("clone")
    \cup {s \in two("move") \cup two("clonefrom") \cup two("swap") : s[2] # s[3]}
    \cup {<<"both", "h", "g">>, <<"end", "-", "-">>}
    \cup (IF Lends(k) THEN one("ref") \cup one("mref") \cup {<<"use", y, "-">> : y \in Refs} \cup {<<"reborrow", "-", "-">>} ELSE {})
    \cup (IF Views(k) THEN one("view") \cup one("escape") \cup two("viewtake") \cup two("viewchange")
                           \cup {<<"viewuse", x, y>> : x \in Handles, y \in Refs} ELSE {})

\* once the scope is over there are only the references
Open(st, op) == st # Refused /\ (st.over => op[1] \in {"use", "reborrow"})

(***************************************************************************)
(* Control flow.  A program is a sequence of statements, of branches       *)
(* <<"if", A, B>> and of loops <<"while", A>>.  It is in order when every  *)
(* path through it is; Run gives the states it may end in.                 *)
(***************************************************************************)
RECURSIVE Run(_, _, _), Loop(_, _, _)
Run(k, S, p) ==
    IF p = <<>> \/ Refused \in S THEN S
    ELSE LET i == Head(p) IN
         Run(k, CASE i[1] = "if" -> Run(k, S, i[2]) \cup Run(k, S, i[3])
                  [] i[1] = "while" -> Loop(k, S, i[2])
                  [] OTHER -> {Step(k, st, i) : st \in S}, Tail(p))
Loop(k, S, p) == LET T == S \cup Run(k, S, p) IN IF T = S THEN S ELSE Loop(k, T, p)
InOrder(k, p) == Refused \notin Run(k, {Start}, p)

(***************************************************************************)
(* What is promised: a reference that is good designates a handle that is  *)
(* there, an exclusive one is the only good reference to it.               *)
(***************************************************************************)
GoodRefs(st) ==
    st # Refused =>
        /\ \A y \in Refs : st.loan[y].ok /\ st.loan[y].on # "-" =>
               st.own[st.loan[y].on] = "owned" /\ ~st.over
        /\ \A y \in Exclusive : st.loan["r"].ok /\ st.loan[y].ok => st.loan["r"].on # st.loan[y].on \/ st.loan["r"].on = "-"
        /\ st.loan["q"].ok /\ st.loan["m"].ok /\ st.loan["q"].on = st.loan["m"].on /\ st.loan["m"].on # "-" => st.loan["q"].via = "m"

\* calls that trust the caller's word about what is stored: only in unsafe code
Trusting == {"ptr.as_ref", "ptr.as_mut_ref", "box.as_ref", "box.as_mut_ref", "box.into_inner", "box.into_box",
             "box.from_raw", "box.new_unchecked", "enum.ref_from_tagged_box"}
\* and calls that do not
Harmless == {"ptr.new", "ptr.dangling", "ptr.discriminant", "ptr.as_ptr", "ptr.as_mut_ptr", "ptr.as_u64", "ptr.as_raw_u64",
             "ptr.store", "ptr.fetch", "ptr.strip",
             "box.new", "box.dangling", "box.discriminant", "box.as_ptr", "box.as_mut_ptr", "box.into_raw",
             "enum.into_tagged_box", "enum.from_tagged_box", "cont.into_inner", "cont.from", "cont.from_payload"}
\* nobody but the module of the declaration makes a container of any box
Forging == {"cont.forge", "cont.peek"}

MayCall(c, unsafe) == c \in Harmless \/ (c \in Trusting /\ unsafe)
=============================================================================
