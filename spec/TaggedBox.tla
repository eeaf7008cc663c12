----------------------------- MODULE TaggedBox -----------------------------
(***************************************************************************)
(* Histories of enum values, tagged boxes, containers, raw pointers and    *)
(* standard boxes.                                                         *)
(*                                                                         *)
(* Every slot is a variable of the program.  A handle (box, container, raw *)
(* pointer, standard box) names a heap block whose contents are a variant  *)
(* and its fields, or no block at all if the contents have no size.  A     *)
(* field is <<token, asset>>: which value it is, and which asset it owns.  *)
(* Assets are whatever has to be given back exactly once: heap blocks and  *)
(* values whose drop matters.  Asset 0 is none; asset -1 is a zero-sized   *)
(* value with a drop, which has no identity and is counted in zalive.      *)
(*                                                                         *)
(* The actions describe the library as its documentation promises it: also *)
(* that what a discarded or consumed handle owned is given back.  Names,   *)
(* addresses and assets that the implementation chooses are parameters, so *)
(* that the same actions serve the exhaustive models (TaggedBoxMC), the    *)
(* generation of histories (HistGen) and the judgement of executions of    *)
(* the real code (HistTrace).                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, EnumCmp, TLC

CONSTANTS
    Slots,
    Bug         \* a fault of the library, to see that the invariants notice it

VARIABLES
    decl,       \* the enum: sequence of [kind, cls, tag ..] (variant v is decl[v + 1])
    israw,      \* no enum but payloads of raw tagged boxes, with tags chosen freely
    maxtag,     \* the highest tag of the configuration
    slot,       \* Slots -> what the variable holds
    heap,       \* block -> contents
    alive,      \* assets not given back yet
    zalive,     \* zero-sized values not dropped yet
    wrong,      \* something was given back that was not there
    out         \* what the last operation returned

hvars == <<decl, israw, maxtag, slot, heap, alive, zalive, wrong, out>>
fixed == <<decl, israw, maxtag>>

-----------------------------------------------------------------------------
\* Contents and ownership

Strip(f) == [i \in DOMAIN f |-> f[i][1]]
Assets(f) == {f[i][2] : i \in DOMAIN f} \ {0, -1}
ZCount(f) == Cardinality({i \in DOMAIN f : f[i][2] = -1})

Nothing == [v |-> -1, f |-> <<>>]
None == [k |-> "none"]
Val(c) == [k |-> "val", v |-> c.v, f |-> c.f]
Hdl(k, tag, addr, b, c) ==
    [k |-> k, tag |-> tag, addr |-> addr, b |-> b, z |-> IF b = 0 THEN c ELSE Nothing]

IsHdl(h) == h.k \in {"box", "cont", "ptr", "std"}
\* the handles that know their variant and act by it
IsTagged(h) == h.k \in {"box", "cont"}

Content(sl, hp, s) ==
    LET h == sl[s] IN
    IF h.k = "none" THEN Nothing
    ELSE IF h.k = "val" THEN [v |-> h.v, f |-> h.f]
    ELSE IF h.b = 0 THEN h.z ELSE hp[h.b]
Here(s) == Content(slot, heap, s)

\* a handle whose tag belongs to no variant
Bad(s) == IsHdl(slot[s]) /\ Here(s).v = -1

Fields(v) == Len(decl[v + 1].cls)
Single(c) == c.v >= 0 /\ decl[c.v + 1].kind = "tuple" /\ Fields(c.v) = 1

Block(sl, s) == IF IsHdl(sl[s]) THEN {sl[s].b} \ {0} ELSE {}
OwnBy(sl, hp, s) == Block(sl, s) \cup Assets(Content(sl, hp, s).f)
Own(sl, hp) == UNION {OwnBy(sl, hp, s) : s \in Slots}
RECURSIVE ZSum(_, _, _)
ZSum(sl, hp, S) ==
    IF S = {} THEN 0
    ELSE LET s == CHOOSE x \in S : TRUE IN ZCount(Content(sl, hp, s).f) + ZSum(sl, hp, S \ {s})

\* bitwise copies share their block
Sharers(s) == {t \in Slots \ {s} : Block(slot, t) # {} /\ Block(slot, t) = Block(slot, s)}

\* what has to be given back with the handle in s, and what with its storage
\* alone when the value is moved out
Estate(s) == IF Sharers(s) = {} THEN OwnBy(slot, heap, s) ELSE {}
Storage(s) == IF Sharers(s) = {} THEN Block(slot, s) ELSE {}

Without(hp, died) == [b \in DOMAIN hp \ died |-> hp[b]]

Retire(born, died, zborn, zdied) ==
    /\ alive' = (alive \cup born) \ died
    /\ zalive' = zalive + zborn - zdied
    /\ wrong' = (wrong \/ ~(died \subseteq alive \cup born) \/ born \cap alive # {} \/ zdied > zalive + zborn)

Keep == UNCHANGED <<slot, heap, alive, zalive, wrong>>

\* fresh storage for contents c: block b, or none if b = 0
Stored(hp, b, c) == IF b = 0 THEN hp ELSE (b :> c) @@ hp
Fresh(b, c) == ({b} \ {0}) \cup Assets(c.f)

\* the position of the variant, unless the conversions are written by hand
Tags == {decl[i].tag : i \in DOMAIN decl}
TagOf(v) == IF Bug = "tagoff" THEN decl[v + 1].tag + 1 ELSE decl[v + 1].tag

-----------------------------------------------------------------------------
\* Making and converting values

Make(s, c) ==
    /\ slot[s].k = "none"
    /\ slot' = [slot EXCEPT ![s] = Val(c)]
    /\ heap' = heap
    /\ Retire(Assets(c.f), {}, ZCount(c.f), 0)
    /\ out' = <<"ok">>
    /\ UNCHANGED fixed

\* the value in s is handed over and refused: it is dropped
Refuse(s) ==
    /\ slot[s].k = "val"
    /\ slot' = [slot EXCEPT ![s] = None]
    /\ heap' = heap
    /\ Retire({}, Assets(slot[s].f), 0, ZCount(slot[s].f))
    /\ out' = <<"refused">>
    /\ UNCHANGED fixed

\* into_tagged_box, Container::from(value); TaggedBox::new(payload, tag) for raw boxes
ToHandle(s, k, tag, b, addr) ==
    /\ slot[s].k = "val"
    /\ tag <= maxtag
    /\ LET c == [v |-> slot[s].v, f |-> slot[s].f] IN
        /\ slot' = [slot EXCEPT ![s] = Hdl(k, tag, addr, b, c)]
        /\ heap' = Stored(heap, b, c)
        /\ Retire({b} \ {0}, {}, 0, 0)
    /\ out' = <<"ok">>
    /\ UNCHANGED fixed

\* Container::from(payload), TaggedBox::new(payload, tag): the value never was in a slot
Store(s, k, c, tag, b, addr) ==
    /\ slot[s].k = "none"
    /\ tag <= maxtag
    /\ slot' = [slot EXCEPT ![s] = Hdl(k, tag, addr, b, c)]
    /\ heap' = Stored(heap, b, c)
    /\ Retire(Fresh(b, c), {}, ZCount(c.f), 0)
    /\ out' = <<"ok">>
    /\ UNCHANGED fixed

\* the same refused: the value is dropped
RefuseNew(s) ==
    /\ slot[s].k = "none"
    /\ Keep /\ out' = <<"refused">> /\ UNCHANGED fixed

\* from_tagged_box, into_inner, *Box: the value moves out, the storage goes
Extract(s) ==
    /\ slot[s].k \in {"box", "cont", "std"}
    /\ ~Bad(s)
    /\ slot' = [slot EXCEPT ![s] = Val(Here(s))]
    /\ heap' = Without(heap, Storage(s))
    /\ Retire({}, IF Bug = "extractkeeps" THEN {} ELSE Storage(s), 0, 0)
    /\ out' = <<"ok">>
    /\ UNCHANGED fixed

\* the same for a tag that belongs to no variant
ExtractBad(s) ==
    /\ IsTagged(slot[s])
    /\ Bad(s)
    /\ slot' = [slot EXCEPT ![s] = None]
    /\ heap' = heap
    /\ Retire({}, {}, 0, 0)
    /\ out' = <<"panic">>
    /\ UNCHANGED fixed

\* one kind of handle becomes another: nothing moves
Become(s, k, tag) ==
    /\ IsHdl(slot[s])
    /\ tag <= maxtag
    /\ slot' = [slot EXCEPT ![s].k = k, ![s].tag = tag]
    /\ UNCHANGED <<heap, alive, zalive, wrong, decl, israw, maxtag>>
    /\ out' = <<"ok">>

Wrap(s) == slot[s].k = "box" /\ ~israw /\ Become(s, "cont", slot[s].tag)
Unwrap(s) == slot[s].k = "cont" /\ Become(s, "box", slot[s].tag)
IntoRaw(s) == slot[s].k = "box" /\ Single(Here(s)) /\ Become(s, "ptr", slot[s].tag)
FromRaw(s, tag) == slot[s].k = "ptr" /\ Become(s, "box", tag)
\* from_raw with a tag out of range: the pointer stays ours
FromRawBad(s) ==
    /\ slot[s].k = "ptr"
    /\ Keep /\ out' = <<"refused">> /\ UNCHANGED fixed
\* a standard box must be the only owner
IntoStd(s) == slot[s].k = "box" /\ Single(Here(s)) /\ Sharers(s) = {} /\ Become(s, "std", slot[s].tag)
\* Box::into_raw, Box::from_raw
StdRaw(s) == slot[s].k = "std" /\ Become(s, "ptr", slot[s].tag)
RawStd(s) == slot[s].k = "ptr" /\ Sharers(s) = {} /\ Become(s, "std", slot[s].tag)

\* a value without a size is anywhere its owner says, wherever a pointer to it may point
Relocate(s, addr) ==
    /\ slot[s].k = "ptr" /\ slot[s].b = 0
    /\ slot' = [slot EXCEPT ![s].addr = addr]
    /\ UNCHANGED <<heap, alive, zalive, wrong, decl, israw, maxtag>>
    /\ out' = <<"ok">>

\* a placeholder whose tag belongs to no variant
MakeBad(s, tag, addr) ==
    /\ slot[s].k = "none" /\ ~israw
    /\ tag <= maxtag /\ tag \notin Tags
    /\ slot' = [slot EXCEPT ![s] = Hdl("box", tag, addr, 0, Nothing)]
    /\ UNCHANGED <<heap, alive, zalive, wrong, decl, israw, maxtag>>
    /\ out' = <<"ok">>

-----------------------------------------------------------------------------
\* Moving, copying, discarding

Move(s, t) ==
    /\ s # t /\ slot[s].k # "none" /\ slot[t].k = "none"
    /\ slot' = [slot EXCEPT ![s] = None, ![t] = slot[s]]
    /\ UNCHANGED <<heap, alive, zalive, wrong, decl, israw, maxtag>>
    /\ out' = <<"ok">>

\* a raw pointer is nobody's duty, so that discarding one is not permitted
Discard(s) ==
    /\ slot[s].k \in {"val", "box", "cont", "std"}
    /\ slot' = [slot EXCEPT ![s] = None]
    /\ LET died == IF Bug = "sharedfree" THEN OwnBy(slot, heap, s)
                   ELSE IF Bug = "discardkeeps" /\ IsTagged(slot[s]) THEN {} ELSE Estate(s)
       IN /\ heap' = Without(heap, Estate(s))
          /\ Retire({}, died, 0, ZCount(Here(s).f))
    /\ out' = <<"ok">>
    /\ UNCHANGED fixed

\* c: the cloned contents, with assets of their own
IsCloneOf(c, d) == c.v = d.v /\ Strip(c.f) = Strip(d.f)
Clone(s, t, c, b, addr) ==
    /\ s # t /\ IsTagged(slot[s]) /\ ~Bad(s) /\ slot[t].k = "none"
    /\ IsCloneOf(c, Here(s))
    /\ LET bb == IF Bug = "clonealias" THEN slot[s].b ELSE b IN
        /\ slot' = [slot EXCEPT ![t] = Hdl(slot[s].k, slot[s].tag, addr, bb, c)]
        /\ heap' = Stored(heap, bb, c)
        /\ Retire(Fresh(b, c), {}, ZCount(c.f), 0)
    /\ out' = <<"ok">>
    /\ UNCHANGED fixed

\* t.clone_from(&s): what t held is given up
CloneFrom(s, t, c, b, addr) ==
    /\ s # t /\ IsTagged(slot[s]) /\ ~Bad(s) /\ slot[t].k = slot[s].k
    /\ IsCloneOf(c, Here(s))
    /\ slot' = [slot EXCEPT ![t] = Hdl(slot[s].k, slot[s].tag, addr, b, c)]
    /\ heap' = Stored(Without(heap, Estate(t)), b, c)
    /\ Retire(Fresh(b, c), Estate(t), ZCount(c.f), ZCount(Here(t).f))
    /\ out' = <<"ok">>
    /\ UNCHANGED fixed

\* the same for containers that are Copy: a bitwise copy over what t held
CopyFrom(s, t) ==
    /\ s # t /\ IsTagged(slot[s]) /\ slot[t].k = slot[s].k
    /\ Assets(Here(s).f) = {} /\ ZCount(Here(s).f) = 0
    /\ slot' = [slot EXCEPT ![t] = slot[s]]
    /\ heap' = Without(heap, Estate(t))
    /\ Retire({}, Estate(t), 0, ZCount(Here(t).f))
    /\ out' = <<"ok">>
    /\ UNCHANGED fixed

\* bitwise: only for contents that own nothing but their block
Copy(s, t) ==
    /\ s # t /\ IsTagged(slot[s]) /\ slot[t].k = "none"
    /\ Assets(Here(s).f) = {} /\ ZCount(Here(s).f) = 0
    /\ slot' = [slot EXCEPT ![t] = slot[s]]
    /\ UNCHANGED <<heap, alive, zalive, wrong, decl, israw, maxtag>>
    /\ out' = <<"ok">>

-----------------------------------------------------------------------------
\* Reading and writing in place

Plain(s) == <<Here(s).v, Strip(Here(s).f)>>

View(s) ==
    /\ IsTagged(slot[s])
    /\ UNCHANGED <<slot, heap, decl, israw, maxtag>>
    /\ Retire({}, IF Bug = "viewdrops" THEN Assets(Here(s).f) ELSE {}, 0, 0)
    /\ out' = IF Bad(s) THEN <<"panic">> ELSE <<"ok", Plain(s)>>

View2(s, t) ==
    /\ IsTagged(slot[s]) /\ IsTagged(slot[t])
    /\ Keep /\ UNCHANGED fixed
    /\ out' = IF Bad(s) \/ Bad(t) THEN <<"panic">> ELSE <<"ok", Plain(s), Plain(t)>>

Result(c, d) == Comparisons(decl, c.v, Strip(c.f), d.v, Strip(d.f))
Compare(s, t) ==
    /\ IsTagged(slot[s]) /\ IsTagged(slot[t])
    /\ Keep /\ UNCHANGED fixed
    /\ out' = IF Bad(s) \/ Bad(t) THEN <<"panic">> ELSE <<"ok", Result(Here(s), Here(t))>>

Format(s) ==
    /\ IsTagged(slot[s])
    /\ Keep /\ UNCHANGED fixed
    /\ out' = IF Bad(s) THEN <<"panic">> ELSE <<"ok", Plain(s)>>

\* views within views, of s and t in turn, n deep. (An operation on other
\* handles, or one that only reads, while s is borrowed is that operation and
\* View(s), as if one came after the other.)
ViewDeep(s, t, n) ==
    /\ IsTagged(slot[s]) /\ IsTagged(slot[t])
    /\ Keep /\ UNCHANGED fixed
    /\ out' = IF Bad(s) \/ (n > 1 /\ Bad(t)) THEN <<"panic">> ELSE <<"ok", Plain(s), Plain(t)>>

\* the payload through as_ref, as_mut_ref, as_ptr, as_mut_ptr
PayRef(s) ==
    /\ slot[s].k = "box" /\ Single(Here(s))
    /\ Keep /\ UNCHANGED fixed
    /\ out' = <<"ok", Plain(s)>>

\* *as_mut_ref() = x: the old payload is dropped; x is <<token, asset>>
Poke(s, x) ==
    /\ slot[s].k = "box" /\ Single(Here(s))
    /\ LET c == Here(s)
           d == [c EXCEPT !.f = <<x>>]
       IN /\ IF slot[s].b = 0
             THEN slot' = [slot EXCEPT ![s].z = d] /\ heap' = heap
             ELSE slot' = slot /\ heap' = [heap EXCEPT ![slot[s].b] = d]
          /\ Retire(Assets(d.f), Assets(c.f), ZCount(d.f), ZCount(c.f))
    /\ out' = <<"ok">>
    /\ UNCHANGED fixed

\* a borrowed view changes field i of the value through a cell: the change stays
ViewPoke(s, i, tok) ==
    /\ IsTagged(slot[s]) /\ ~Bad(s)
    /\ i \in DOMAIN Here(s).f
    /\ LET d == [Here(s) EXCEPT !.f[i] = <<tok, Here(s).f[i][2]>>]
       IN IF slot[s].b = 0
          THEN slot' = [slot EXCEPT ![s].z = d] /\ heap' = heap
          ELSE slot' = slot /\ heap' = [heap EXCEPT ![slot[s].b] = d]
    /\ UNCHANGED <<alive, zalive, wrong, decl, israw, maxtag>>
    /\ out' = <<"ok">>

\* a borrowing, cloning, comparing or printing operation that fails
Fail(s) ==
    /\ IsTagged(slot[s])
    /\ Keep /\ UNCHANGED fixed
    /\ out' = <<"fault">>

\* t.clone_from(&s) that fails: t holds what it held
FailOver(s, t) ==
    /\ s # t /\ IsTagged(slot[s]) /\ slot[t].k = slot[s].k
    /\ slot' = IF Bug = "failover" THEN [slot EXCEPT ![t].tag = slot[s].tag] ELSE slot
    /\ heap' = heap
    /\ Retire({}, {}, 0, 0)
    /\ out' = <<"fault">>
    /\ UNCHANGED fixed

-----------------------------------------------------------------------------
\* What must always hold

\* C07 and C08: exactly what is owned is alive
OwnedAlive == Own(slot, heap) \subseteq alive /\ ZSum(slot, heap, Slots) <= zalive
NothingLost == alive \subseteq Own(slot, heap) /\ zalive <= ZSum(slot, heap, Slots)
NeverWrong == ~wrong
HeapIsReachable == DOMAIN heap = UNION {Block(slot, s) : s \in Slots}

\* C09: two handles have something in common only if they are bitwise copies
Separate ==
    \A s, t \in Slots :
        s # t /\ OwnBy(slot, heap, s) \cap OwnBy(slot, heap, t) # {}
          => /\ Block(slot, s) = Block(slot, t)
             /\ Assets(Here(s).f) = {}
             /\ slot[s].k # "std" /\ slot[t].k # "std"

\* C05: the tag is the position of the variant, a foreign tag is no variant's
TagIsPosition ==
    israw \/ \A s \in Slots : IsTagged(slot[s]) =>
        IF Bad(s) THEN slot[s].tag \notin Tags ELSE slot[s].tag = decl[Here(s).v + 1].tag

TagInRange == \A s \in Slots : IsHdl(slot[s]) => slot[s].tag <= maxtag
=============================================================================
