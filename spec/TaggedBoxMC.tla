---------------------------- MODULE TaggedBoxMC ----------------------------
(***************************************************************************)
(* The exhaustive models of TaggedBox: a small enum, fresh names chosen as *)
(* the smallest unused ones, and a label for every step.                   *)
(***************************************************************************)
EXTENDS TaggedBox, TLC

CONSTANTS
    Variants,   \* which variants of All the enum has
    Raw,        \* TRUE: payloads of raw boxes
    Can         \* subset of {"clone", "copy"}: what the values can do

VARIABLE last   \* the label of the last step
mvars == <<hvars, last>>

\* own: z a counted zero-sized value, a an asset, p plain data
All == [
    unit |-> [kind |-> "unit", cls |-> <<>>, own |-> <<>>],
    trk  |-> [kind |-> "tuple", cls |-> <<"tot">>, own |-> <<"a">>],
    num  |-> [kind |-> "tuple", cls |-> <<"nan">>, own |-> <<"p">>],
    two  |-> [kind |-> "named", cls |-> <<"half", "tot">>, own |-> <<"a", "p">>],
    pair |-> [kind |-> "tuple", cls |-> <<"tot", "nan">>, own |-> <<"p", "p">>],
    zst  |-> [kind |-> "tuple", cls |-> <<"one">>, own |-> <<"z">>] ]

How == "derived"      \* or HowKey: comparisons written by hand, pairs of variants of one rank
HowKey == "key"
TagAt(i) == i - 1     \* or TagsByHand: the conversions are written by hand
TagsByHand(i) == <<1, 3, 0, 4, 7>>[i]
Decl == [i \in DOMAIN Variants |-> All[Variants[i]] @@ [how |-> How, rank |-> i \div 2, tag |-> TagAt(i)]]
Sized(v) == \E i \in DOMAIN decl[v + 1].own : decl[v + 1].own[i] # "z"

MaxTag == Len(Variants)     \* one tag belongs to no variant
BadTag == CHOOSE x \in 0..MaxTag : x \notin {TagAt(i) : i \in DOMAIN Variants}
Vs == 0..(Len(decl) - 1)

\* the n-th unused name; names are used again after they were given back
RECURSIVE NthFree(_, _, _)
NthFree(used, n, i) == IF i \in used THEN NthFree(used, n, i + 1)
                       ELSE IF n = 1 THEN i ELSE NthFree(used, n - 1, i + 1)
New(n) == NthFree(alive, n, 1)

Toks(c) == IF c = "one" THEN {0} ELSE {0, 1}
TokSeqs(v) == LET cls == decl[v + 1].cls IN
    {t \in [1..Len(cls) -> {0, 1}] : \A i \in 1..Len(cls) : t[i] \in Toks(cls[i])}
\* at most one field owns an asset; it gets the n-th unused name
Fill(v, t, n) == [v |-> v, f |-> [i \in DOMAIN t |->
    <<t[i], CASE decl[v + 1].own[i] = "a" -> New(n) [] decl[v + 1].own[i] = "z" -> -1 [] OTHER -> 0>>]]
Blk(v) == IF Sized(v) THEN New(1) ELSE 0
Class(c) == IF c.v = -1 THEN "bad" ELSE IF Len(c.f) = 0 THEN "u" ELSE IF Single(c) THEN "s" ELSE "m"
ClassV(v) == IF Fields(v) = 0 THEN "u" ELSE IF decl[v + 1].kind = "tuple" /\ Fields(v) = 1 THEN "s" ELSE "m"
\* the variant without fields stands for `V' as well as `V()'
Convertible(v) == decl[v + 1].kind \in {"tuple", "unit"}
L(x) == last' = x

\* choices of variants for the models
Mixed == <<"unit", "trk", "num", "two", "zst">>
Copyable == <<"num", "unit", "pair">>
Copyable2 == <<"num", "unit">>
Keyed == <<"unit", "trk", "num", "two">>
Payloads == <<"trk", "num", "zst">>

MNext ==
    \/ \E s \in Slots :
        \/ \E v \in Vs : \E t \in TokSeqs(v) :
            \/ Make(s, Fill(v, t, 1)) /\ L(<<"make", s, ClassV(v)>>)
            \/ ~Raw /\ Convertible(v) /\ Store(s, "cont", Fill(v, t, 2), TagOf(v), Blk(v), Blk(v)) /\ L(<<"contpay", s, ClassV(v)>>)
            \/ ClassV(v) = "s" /\ Store(s, "box", Fill(v, t, 2), TagOf(v), Blk(v), Blk(v)) /\ L(<<"paynew", s, ClassV(v)>>)
            \/ ClassV(v) = "s" /\ Store(s, "std", Fill(v, t, 2), 0, Blk(v), Blk(v)) /\ L(<<"stdnew", s, ClassV(v)>>)
            \/ ~Raw /\ Convertible(v) /\ RefuseNew(s) /\ L(<<"falloccontpay", s, ClassV(v)>>)
            \/ ClassV(v) = "s" /\ RefuseNew(s) /\ L(<<"fallocpaynew", s, ClassV(v)>>)
            \/ ClassV(v) = "s" /\ RefuseNew(s) /\ L(<<"paynewbad", s, ClassV(v)>>)
        \/ slot[s].k = "val" /\ ToHandle(s, "box", TagOf(slot[s].v), Blk(slot[s].v), Blk(slot[s].v)) /\ L(<<"tobox", s>>)
        \/ ~Raw /\ slot[s].k = "val" /\ ToHandle(s, "cont", TagOf(slot[s].v), Blk(slot[s].v), Blk(slot[s].v)) /\ L(<<"tocont", s>>)
        \/ Refuse(s) /\ L(<<"falloctobox", s>>)
        \/ Raw /\ Refuse(s) /\ L(<<"toboxbad", s>>)
        \/ ~Raw /\ Refuse(s) /\ L(<<"falloctocont", s>>)
        \/ slot[s].k = "box" /\ (Extract(s) \/ ExtractBad(s)) /\ L(<<"frombox", s>>)
        \/ slot[s].k = "cont" /\ (Extract(s) \/ ExtractBad(s)) /\ L(<<"continner", s>>)
        \/ slot[s].k = "std" /\ Extract(s) /\ L(<<"stdread", s>>)
        \/ slot[s].k = "box" /\ Single(Here(s)) /\ Extract(s) /\ L(<<"payinner", s>>)
        \/ Wrap(s) /\ L(<<"wrap", s>>)
        \/ Unwrap(s) /\ L(<<"unwrap", s>>)
        \/ IntoRaw(s) /\ L(<<"intoraw", s>>)
        \/ FromRaw(s, TagOf(Here(s).v)) /\ L(<<"fromraw", s>>)
        \/ FromRawBad(s) /\ L(<<"fromrawbad", s>>)
        \/ IntoStd(s) /\ L(<<"intostd", s>>)
        \/ StdRaw(s) /\ L(<<"stdraw", s>>)
        \/ slot[s].k = "ptr" /\ Relocate(s, 1 - slot[s].addr) /\ L(<<"relocate", s>>)
        \/ RawStd(s) /\ L(<<"rawstd", s>>)
        \/ MakeBad(s, BadTag, 0) /\ L(<<"mkbad", s>>)
        \/ Discard(s) /\ L(<<"drop", s>>)
        \/ View(s) /\ L(<<"view", s>>)
        \/ ~Bad(s) /\ IsTagged(slot[s]) /\ \E i \in DOMAIN Here(s).f : \E t \in Toks(decl[Here(s).v + 1].cls[i]) :
                ViewPoke(s, i, t) /\ L(<<"vpoke", s>>)
        \/ Fail(s) /\ L(<<"fview", s>>)
        \/ "clone" \in Can /\ ~Bad(s) /\ Fail(s) /\ L(<<"fclone", s>>)
        \/ "clone" \in Can /\ ~Bad(s) /\ ("copy" \in Can => slot[s].k = "box") /\ Fail(s) /\ L(<<"fallocclone", s>>)
        \/ ~Raw /\ Format(s) /\ L(<<"fmt", s>>)
        \/ ~Raw /\ Fail(s) /\ L(<<"ffmt", s>>)
        \/ ~Raw /\ Fail(s) /\ L(<<"fwrite", s>>)
        \/ PayRef(s) /\ L(<<"payref", s>>)
        \/ slot[s].k = "box" /\ Single(Here(s)) /\ \E t \in TokSeqs(Here(s).v) :
                Poke(s, Fill(Here(s).v, t, 1).f[1]) /\ L(<<"poke", s>>)
    \/ \E s, t \in Slots :
        \/ Move(s, t) /\ L(<<"move", s, t>>)
        \* a container that is Copy may be cloned by copying it
        \/ "clone" \in Can /\ ~Bad(s) /\ "copy" \in Can /\ slot[s].k = "cont" /\ Copy(s, t) /\ L(<<"clone", s, t>>)
        \/ "clone" \in Can /\ ~Bad(s) /\ ("copy" \in Can => slot[s].k = "box")
             /\ Clone(s, t, Fill(Here(s).v, Strip(Here(s).f), 2), Blk(Here(s).v), Blk(Here(s).v)) /\ L(<<"clone", s, t>>)
        \/ "clone" \in Can /\ ~Bad(s) /\ "copy" \in Can /\ slot[s].k = "cont" /\ CopyFrom(s, t) /\ L(<<"clonefrom", s, t>>)
        \/ "clone" \in Can /\ ~Bad(s) /\ ("copy" \in Can => slot[s].k = "box") /\ FailOver(s, t)
             /\ (L(<<"fclonefrom", s, t>>) \/ L(<<"fallocclonefrom", s, t>>))
        \/ "clone" \in Can /\ ~Bad(s) /\ ("copy" \in Can => slot[s].k = "box") /\ CloneFrom(s, t, Fill(Here(s).v, Strip(Here(s).f), 2), Blk(Here(s).v), Blk(Here(s).v))
             /\ L(<<"clonefrom", s, t>>)
        \/ "copy" \in Can /\ Copy(s, t) /\ L(<<"copy", s, t>>)
        \/ ~Raw /\ View2(s, t) /\ L(<<"view2", s, t>>)
        \/ ViewDeep(s, t, 3) /\ L(<<"viewd", s, t>>)
        \/ ~Raw /\ IsTagged(slot[t]) /\ Fail(s) /\ L(<<"fview2", s, t>>)
        \/ ~Raw /\ Compare(s, t) /\ L(<<"cmp", s, t>>)
        \/ ~Raw /\ IsTagged(slot[t]) /\ Fail(s) /\ L(<<"fcmp", s, t>>)

MInit ==
    /\ decl = Decl /\ israw = Raw /\ maxtag = MaxTag
    /\ slot = [s \in Slots |-> None] /\ heap = <<>>
    /\ alive = {} /\ zalive = 0 /\ wrong = FALSE /\ out = <<>>
    /\ last = <<>>

MSpec == MInit /\ [][MNext]_mvars

-----------------------------------------------------------------------------
Plain2(s) ==
    LET h == slot[s] IN
    IF h.k = "none" THEN [k |-> "none", x |-> <<>>] ELSE [k |-> h.k, x |-> Plain(s)]
Common == {e \in Slots \X Slots : e[1] # e[2] /\ OwnBy(slot, heap, e[1]) \cap OwnBy(slot, heap, e[2]) # {}}

\* States that differ only in the names of blocks and assets have the same
\* successors up to names, and labels and results do not matter for what follows.
MView == <<[s \in Slots |-> <<Plain2(s), IF IsHdl(slot[s]) THEN <<slot[s].tag, Block(slot, s) = {}>> ELSE <<>> >>],
           Common, Cardinality(alive \ Own(slot, heap)), Cardinality(Own(slot, heap) \ alive), Cardinality(DOMAIN heap),
           zalive, wrong>>

P == INSTANCE PlainEnum WITH
    classes <- decl,
    p <- [s \in Slots |-> Plain2(s)],
    same <- {e \in Slots \X Slots : e[1] # e[2] /\ Block(slot, e[1]) # {} /\ Block(slot, e[1]) = Block(slot, e[2])},
    ans <- out
Refinement == P!PSpec
=============================================================================
