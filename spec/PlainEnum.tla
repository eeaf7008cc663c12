----------------------------- MODULE PlainEnum -----------------------------
(***************************************************************************)
(* What a program sees of TaggedBox when it forgets about tags, addresses, *)
(* blocks and ownership: variables that hold plain enum values.  A value   *)
(* only changes its clothes when it is boxed, contained, unboxed; clones   *)
(* are equal; bitwise copies stay equal; reading returns the value.        *)
(* TaggedBoxMC checks that TaggedBox implements this (C04, C06, C09, C10,  *)
(* C13).                                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, EnumCmp
CONSTANTS Slots
VARIABLES classes,   \* variant -> how its values compare (see EnumCmp)
          p,         \* slot -> [k, x]: the clothes and the value <<variant, tokens>>
          same,      \* pairs of slots that are bitwise copies of each other
          ans        \* what the last operation returned

pvars == <<classes, p, same, ans>>

Empty == [k |-> "none", x |-> <<>>]
Unpair(s) == {e \in same : s \notin {e[1], e[2]}}
Group(s) == {t \in Slots : t = s \/ <<s, t>> \in same}
NoVariant == <<-1, <<>> >>

PMake(s) ==
    /\ p[s] = Empty
    /\ \E k \in {"val", "box", "cont", "std"}, x \in {p'[s].x} : p' = [p EXCEPT ![s] = [k |-> k, x |-> x]]
    /\ same' = same /\ ans' = <<"ok">>

PRefused(s) == p[s] = Empty /\ UNCHANGED <<p, same>> /\ ans' = <<"refused">>

\* moves between clothes; taking a value out of shared storage ends the sharing
PChange(s) ==
    /\ p[s] # Empty
    /\ \E k \in {"val", "box", "cont", "ptr", "std"} :
        /\ p' = [p EXCEPT ![s].k = k]
        /\ same' = IF k = "val" THEN Unpair(s) ELSE same
        /\ ans' = <<"ok">>

PEnd(s) ==
    /\ p[s] # Empty /\ p' = [p EXCEPT ![s] = Empty] /\ same' = Unpair(s)
    /\ ans' \in {<<"ok">>, <<"panic">>, <<"refused">>}
    \* only a plain value is refused, only an unknown variant ends in a panic
    /\ ans' = <<"refused">> => p[s].k = "val"
    /\ (ans' = <<"panic">>) = (p[s].x = NoVariant /\ ans' # <<"ok">>)

PMove(s, t) ==
    /\ p[s] # Empty /\ p[t] = Empty
    /\ p' = [p EXCEPT ![s] = Empty, ![t] = p[s]]
    /\ same' = {<<IF e[1] = s THEN t ELSE e[1], IF e[2] = s THEN t ELSE e[2]>> : e \in same}
    /\ ans' = <<"ok">>

PClone(s, t) ==
    /\ p[s] # Empty
    /\ p' = [p EXCEPT ![t] = p[s]] /\ same' = Unpair(t) /\ ans' = <<"ok">>

PCopy(s, t) ==
    /\ s # t /\ p[s] # Empty
    /\ p[t] = Empty \/ p[t].k = p[s].k   \* a copy over what t held
    /\ p' = [p EXCEPT ![t] = p[s]]
    /\ LET G == Group(s) \ {t} IN
       same' \in {Unpair(t), Unpair(t) \cup {<<u, t>> : u \in G} \cup {<<t, u>> : u \in G}}
    /\ ans' = <<"ok">>

PWrite(s) ==
    /\ p[s].k \in {"box", "cont"}
    /\ p' = [u \in Slots |-> IF u \in Group(s) THEN [p[u] EXCEPT !.x = p'[s].x] ELSE p[u]]
    /\ p'[s].x[1] = p[s].x[1]
    /\ same' = same /\ ans' = <<"ok">>

PRead(s, t) ==
    /\ p[s] # Empty /\ p[t] # Empty
    /\ UNCHANGED <<p, same>>
    /\ ans' \in {<<"ok", p[s].x>>, <<"ok", p[s].x, p[t].x>>, <<"panic">>, <<"fault">>, <<"refused">>}
                \cup (IF NoVariant \in {p[s].x, p[t].x} THEN {}
                      ELSE {<<"ok", Comparisons(classes, p[s].x[1], p[s].x[2], p[t].x[1], p[t].x[2])>>})
    \* a panic without a fault is the answer to an unknown variant, always
    /\ ans' = <<"panic">> => NoVariant \in {p[s].x, p[t].x}
    /\ NoVariant \in {p[s].x, p[t].x} => ans' \in {<<"panic">>, <<"fault">>, <<"ok", p[s].x>>} /\ ans' # <<"ok", NoVariant>>
    /\ ans' = <<"refused">> => p[s].k = "ptr"

PNext ==
    /\ UNCHANGED classes
    /\ \/ \E s \in Slots : PMake(s) \/ PRefused(s) \/ PChange(s) \/ PEnd(s) \/ PWrite(s)
       \/ \E s, t \in Slots : PMove(s, t) \/ PClone(s, t) \/ PCopy(s, t) \/ PRead(s, t)

PInit == p = [s \in Slots |-> Empty] /\ same = {} /\ ans = <<>>
PSpec == PInit /\ [][PNext]_pvars
=============================================================================
