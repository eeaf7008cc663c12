----------------------------- MODULE BorrowGen ------------------------------
(* All states a program can bring about, and all statements in each. *)
EXTENDS Borrow, TLC, Json
VARIABLES kind, st, last,
          given    \* handles given away and not filled since

vars == <<kind, st, last, given>>
NoOp == <<"-", "-", "-">>
Init == kind \in Kinds /\ st = Start /\ last = NoOp /\ given = [x \in Handles |-> FALSE]
Next == /\ st # Refused
        /\ \E op \in Ops(kind) :
             /\ Open(st, op)
             /\ st' = Step(kind, st, op)
             /\ last' = op
             /\ kind' = kind
             /\ given' = [x \in Handles |->
                   CASE op[1] \in {"take", "move"} /\ op[2] = x -> TRUE
                     [] op[1] = "viewtake" /\ op[3] = x -> TRUE
                     [] op[1] = "assign" /\ op[2] = x -> FALSE
                     [] op[1] \in {"move", "clone"} /\ op[3] = x -> FALSE
                     [] OTHER -> given[x]]
Spec == Init /\ [][Next]_vars
View == <<kind, st, given>>
Emit == PrintT("EDGE " \o ToJson([k |-> kind, f |-> st, o |-> last', t |-> st']))
Good == GoodRefs(st)
\* nothing is used after it was given away, unless it is copied
\* a reference just lent is tied to the handle it was taken from
Tied == [][last'[1] \in {"ref", "mref"} /\ st' # Refused => st'.loan[IF last'[1] = "ref" THEN "r" ELSE "m"].on = last'[2]]_vars
Once == [][last'[1] \in {"take", "read", "view"} /\ kind \notin {"boxcopy", "contcopy", "ptr"} /\ given[last'[2]] => st' = Refused]_vars
=============================================================================
