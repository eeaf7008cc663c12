------------------------------ MODULE Threads ------------------------------
(***************************************************************************)
(* Threads that borrow, compare, print and clone shared handles, and make  *)
(* and take apart handles of their own (C15).  An operation is a sequence  *)
(* of small steps: fetching the word of a handle, reading the contents of  *)
(* its block, calling into the user's code, taking and giving back         *)
(* storage; between any two of them the other threads may do theirs.       *)
(* Whatever they do, every operation has to come to what it comes to when  *)
(* it runs alone (Sequential), which depends on the handles it is given    *)
(* and on nothing else.                                                    *)
(*                                                                         *)
(* With Grain = "coarse" threads hand over only where the harness can make *)
(* the real code do so - inside calls into the user's code (callbacks,     *)
(* clones, comparisons and formatting of payloads) and into the allocator; *)
(* the schedules so found are replayed with the real code.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
    Threads,    \* 1..n
    ProgLen,    \* operations per thread
    Grain,      \* "fine" or "coarse"
    Bug         \* a fault of the library

VARIABLES
    prog,       \* thread -> its operations
    mem,        \* address -> contents
    reg,        \* thread -> what the operation under way has got hold of
    at,         \* thread -> <<number of the operation, number of the step>>
    res,        \* thread -> results so far
    global,     \* only used by faulty libraries: state all threads share
    wrong,      \* storage was misused
    turn,       \* who runs (coarse)
    sched       \* the hand-overs (coarse)

vars == <<prog, mem, reg, at, res, global, wrong, turn, sched>>

Shared == {1, 2}
Word(h) == <<h - 1, h>>                     \* tag and address
Start(h) == <<h - 1, 50 + h>>               \* variant and value
Own(t) == <<0, 10 * t>>
Addrs == 1..(2 + Cardinality(Threads))
Free == <<>>
Gone == <<"moved out">>

Ops == {<<"view", s, s>> : s \in Shared} \cup {<<"fmt", s, s>> : s \in Shared} \cup {<<"clone", s, s>> : s \in Shared}
       \cup {<<"cmp", s, t>> : s, t \in Shared} \cup {<<"conv", 0, 0>>}
\* the programs that differ in more than the names of the handles
Few == {<<"view", 1, 1>>, <<"fmt", 2, 2>>, <<"clone", 1, 1>>, <<"cmp", 1, 2>>, <<"conv", 0, 0>>}

Steps(o) ==
    CASE o = "view"  -> <<"fetch", "read", "call", "again">>
      [] o = "fmt"   -> <<"fetch", "read", "print">>
      [] o = "cmp"   -> <<"fetch", "read", "fetch2", "read2", "compare">>
      [] o = "clone" -> <<"fetch", "read", "copy", "alloc", "write", "look", "free">>
      [] o = "conv"  -> <<"alloc", "write", "look", "free">>
\* the steps before which a hand-over is possible in the real code
Gate == {"again", "print", "compare", "copy", "alloc", "free"}

Op(t) == prog[t][at[t][1]]
Step(t) == Steps(Op(t)[1])[at[t][2]]
Done(t) == at[t][1] > Len(prog[t])
AllDone == \A t \in Threads : Done(t)

\* what the operation comes to when nobody else is there
Alone(t, o) ==
    CASE o[1] \in {"view", "fmt", "clone"} -> Start(o[2])
      [] o[1] = "cmp" -> <<Start(o[2]), Start(o[3])>>
      [] o[1] = "conv" -> Own(t)

Init ==
    /\ prog \in IF ProgLen < 3
               THEN [Threads -> [1..ProgLen -> IF ProgLen = 1 /\ Cardinality(Threads) < 3 THEN Ops ELSE Few]]
               ELSE {[t \in Threads |-> [i \in 1..ProgLen |-> RandomElement(IF k = 0 THEN Few ELSE Ops)]] : k \in 1..400}
    /\ mem = [a \in Addrs |-> IF a \in Shared THEN Start(a) ELSE Free]
    /\ reg = [t \in Threads |-> [w |-> <<0, 0>>, c |-> Free, c2 |-> Free, a |-> 0, n |-> Free]]
    /\ at = [t \in Threads |-> <<1, 1>>]
    /\ res = [t \in Threads |-> <<>>]
    /\ global = <<Free, <<0, 0>> >>
    /\ wrong = FALSE
    /\ turn = 0 /\ sched = <<>>

\* the word as the library got it, the contents as the library got them
TheWord(t) == IF Bug = "lastword" THEN global[2] ELSE reg[t].w
TheValue(t) == IF Bug = "scratch" THEN global[1] ELSE reg[t].c

Advance(t) == at' = [at EXCEPT ![t] = IF @[2] = Len(Steps(Op(t)[1])) THEN <<@[1] + 1, 1>> ELSE <<@[1], @[2] + 1>>]
Finish(t, r) == res' = [res EXCEPT ![t] = Append(@, r)]
Same(x) == UNCHANGED x

Fetch(t, h) ==
    /\ reg' = [reg EXCEPT ![t].w = Word(h)]
    /\ global' = <<global[1], Word(h)>>
    /\ Same(<<mem, res, wrong>>)

Read(t, second) ==
    LET a == TheWord(t)[2]
        c == IF mem[a] \in {Free, Gone} THEN <<9, 9>> ELSE mem[a]
    IN /\ wrong' = (wrong \/ mem[a] = Free)
       /\ reg' = IF second THEN [reg EXCEPT ![t].c2 = c] ELSE [reg EXCEPT ![t].c = c]
       /\ global' = <<c, global[2]>>
       /\ mem' = IF Bug = "takeout" THEN [mem EXCEPT ![a] = Gone] ELSE mem
       /\ Same(res)

\* a library that takes the value out puts it back when it is done
Back(t, m) == IF Bug = "takeout" /\ Op(t)[1] \in {"view", "fmt", "cmp", "clone"}
              THEN [a \in Addrs |-> IF m[a] = Gone THEN Start(a) ELSE m[a]] ELSE m

Do(t) ==
    LET o == Op(t)
        s == Step(t) IN
    CASE s = "fetch" -> Fetch(t, o[2])
      [] s = "fetch2" -> Fetch(t, o[3])
      [] s = "read" -> Read(t, FALSE)
      [] s = "read2" -> Read(t, TRUE)
      [] s = "call" -> Same(<<mem, reg, res, global, wrong>>)
      \* the callback looks again: the value is still the same
      [] s \in {"again", "print"} -> Finish(t, TheValue(t)) /\ mem' = Back(t, mem) /\ Same(<<reg, global, wrong>>)
      [] s = "compare" -> Finish(t, <<reg[t].c, IF Bug = "scratch" THEN global[1] ELSE reg[t].c2>>)
                          /\ mem' = Back(t, mem) /\ Same(<<reg, global, wrong>>)
      [] s = "copy" -> reg' = [reg EXCEPT ![t].n = TheValue(t)] /\ mem' = Back(t, mem) /\ Same(<<res, global, wrong>>)
      [] s = "alloc" ->
            LET a == CHOOSE x \in Addrs : mem[x] = Free /\ \A y \in Addrs : mem[y] = Free => x <= y IN
            /\ reg' = [reg EXCEPT ![t].a = a, ![t].n = IF o[1] = "conv" THEN Own(t) ELSE @]
            /\ mem' = IF Bug = "racyalloc" THEN mem ELSE [mem EXCEPT ![a] = Gone]
            /\ Same(<<res, global, wrong>>)
      [] s = "write" -> mem' = [mem EXCEPT ![reg[t].a] = reg[t].n] /\ Same(<<reg, res, global, wrong>>)
      [] s = "look" -> Finish(t, mem[reg[t].a]) /\ Same(<<mem, reg, global, wrong>>)
      [] s = "free" -> /\ wrong' = (wrong \/ mem[reg[t].a] = Free \/ reg[t].a \in Shared)
                       /\ mem' = [mem EXCEPT ![reg[t].a] = Free]
                       /\ Same(<<reg, res, global>>)

StepOf(t) == ~Done(t) /\ Do(t) /\ Advance(t) /\ Same(prog)

\* coarse: having the turn, a thread goes on until its next gate or its end
AtGate(t) == Done(t)' \/ (Steps(prog[t][at'[t][1]][1])[at'[t][2]]) \in Gate
Next ==
    \/ \E t \in Threads :
        IF Grain = "fine" THEN StepOf(t) /\ Same(<<turn, sched>>)
        ELSE /\ turn \in {0, t}
             /\ StepOf(t)
             /\ sched' = IF turn = 0 THEN Append(sched, t - 1) ELSE sched
             /\ turn' = IF AtGate(t) THEN 0 ELSE t
    \/ AllDone /\ UNCHANGED vars

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Sequential == \A t \in Threads : \A i \in DOMAIN res[t] : res[t][i] = Alone(t, prog[t][i])
NeverWrong == ~wrong
Untouched == Bug = "takeout" \/ \A h \in Shared : mem[h] = Start(h)
NothingLeft == AllDone => \A a \in Addrs \ Shared : mem[a] = Free

Emit == AllDone => PrintT("SCHED " \o ToJson([p |-> prog, s |-> sched]))
=============================================================================
