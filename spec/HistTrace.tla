----------------------------- MODULE HistTrace -----------------------------
(***************************************************************************)
(* Judges histories executed by the real code, recorded by harness/hist:   *)
(* every line is one operation, its outcome, the assets that came into     *)
(* being and went, and what all slots look like afterwards.  The operation *)
(* is taken as the action of TaggedBox it stands for - with the names the  *)
(* implementation chose for fresh storage - and what was recorded must be  *)
(* what the action demands.  Mismatches are printed as                     *)
(*     VIOL [aspect, line, operation, what]                                *)
(* and the validation goes on; after an outcome that leaves the state      *)
(* unknown it resumes at the next case.                                    *)
(*                                                                         *)
(* What is really alive is tracked in `live' beside the ideal `alive': the *)
(* difference is what the code lost (leaked), and what it gave back early. *)
(***************************************************************************)
EXTENDS TaggedBox, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES
    l,       \* next line
    off,     \* the rest of the case is not judged
    live,    \* assets that exist
    lost,    \* of those, the ones already reported as owned by nobody
    zlive, zlost,
    copyable \* the containers are Copy

tvars == <<hvars, l, off, live, lost, zlive, zlost, copyable>>

e == Trace[l]
S(q) == {q[i] : i \in DOMAIN q}
Pow2(n) == 2 ^ n

IsFA == e.op = "falloc"
Op == IF IsFA THEN "falloc" \o e.a[2] ELSE e.op
Arg(i) == IF IsFA THEN e.a[i + 2] ELSE e.a[i]
NArgs == IF IsFA THEN Len(e.a) - 2 ELSE Len(e.a)
Obs(s) == e.obs[s + 1]
\* of an operation of a thread, only its own and the shared slots are recorded
Looked == IF "vis" \in DOMAIN e THEN S(e.vis) \cap Slots ELSE Slots
src == Arg(1)
CloneFroms == {"clonefrom", "fclonefrom", "fallocclonefrom"}
Clones == {"clone", "fclone", "fallocclone"} \cup CloneFroms
\* the slot the result goes to
dst == IF Op \in Clones \cup {"copy", "move"} THEN Arg(2) ELSE src

Viol(aspect, what) == PrintT("VIOL " \o ToJson(<<aspect, l, Op, what>>))
Check(aspect, ok, what) == IF ok THEN TRUE ELSE Viol(aspect, what)

-----------------------------------------------------------------------------
\* What is demanded

HasBlk(v) == decl[v + 1].min > 0
\* the block a value of variant v is in: what has no size may lie where some block happens to start
BlkOf(v, b) == IF v < 0 \/ HasBlk(v) \/ b \in S(e.made) THEN b ELSE 0
o == Obs(dst)
OIsHdl == o.k \in {"box", "cont", "ptr", "std"}
\* fresh contents: the tokens that were asked for, the assets that were found
Found(v, toks) ==
    [v |-> v, f |-> [i \in DOMAIN toks |-> <<toks[i], IF o.k # "none" /\ i \in DOMAIN o.f THEN o.f[i][2] ELSE 0>>]]
ToksFrom(i) == [j \in 1..(NArgs - i + 1) |-> Arg(i + j - 1)]

\* the contents that are to appear in new storage (or as a new value) at dst
NewContent ==
    CASE Op = "make" \/ Op \in {"contpay", "falloccontpay"} -> Found(Arg(2), ToksFrom(3))
      [] Op \in {"paynew", "fallocpaynew", "stdnew"} -> Found(Arg(2), <<Arg(3)>>)
      [] Op \in {"tobox", "tocont", "falloctobox", "falloctocont"} -> Here(src)
      [] OTHER -> Found(Here(src).v, Strip(Here(src).f))

Makes == {"make", "contpay", "falloccontpay", "paynew", "fallocpaynew", "stdnew"}
Converts == {"tobox", "tocont", "falloctobox", "falloctocont"}
WantTag ==
    CASE Op \in {"paynew", "fallocpaynew"} -> Arg(4)
      [] Op \in {"tobox", "falloctobox"} /\ israw -> Arg(2)
      [] Op \in {"fromraw", "mkbad"} -> Arg(2)
      [] Op = "stdnew" -> 0
      [] OTHER -> IF NewContent.v < 0 THEN 0 ELSE decl[NewContent.v + 1].tag
OutOfRange == Op \in Converts \cup {"contpay", "falloccontpay", "paynew", "fallocpaynew", "fromraw", "mkbad"} /\ WantTag > maxtag

\* a container that is Copy may be cloned by copying it
ByCopy == copyable /\ Op \in {"clone", "fallocclone", "clonefrom", "fallocclonefrom"} /\ slot[src].k = "cont" /\ OIsHdl /\ BlkOf(Here(src).v, o.b) = slot[src].b /\ e.made = <<>>

BadArg == \/ Bad(src)
          \/ Op \in {"view2", "fview2", "cmp", "fcmp"} /\ Bad(Arg(2))
          \/ Op = "viewd" /\ Arg(3) > 1 /\ Bad(Arg(2))

\* ok or panic; err only for formatting
WantRes ==
    CASE OutOfRange -> "panic"
      [] ByCopy -> "ok"   \* also where the tag belongs to no variant: nothing is interpreted
      [] IsFA -> IF HasBlk(NewContent.v) THEN "panic" ELSE "ok"
      [] Op \in {"frombox", "continner", "view", "view2", "vin", "viewd", "clone", "clonefrom", "cmp", "fmt"} /\ BadArg -> "panic"
      \* a writer that gives up may do so before the value is reached
      [] Op = "fwrite" /\ BadArg -> IF e.res = "err" THEN "err" ELSE "panic"
      [] Op \in {"fcmp", "ffmt", "fclone", "fclonefrom"} /\ BadArg -> "panic"
      [] Op \in {"fview", "fview2"} -> "panic"
      [] Op \in {"fclone", "fclonefrom", "fmt", "ffmt", "fwrite"} -> e.ref
      [] Op = "fcmp" -> IF e.ref = <<9>> THEN "panic" ELSE "ok"
      [] OTHER -> "ok"

\* storage that is new must be: made by this operation, still there, fitting
Stores == ~ByCopy /\ (Op \in Converts \cup Clones \cup (Makes \ {"make"})) /\ WantRes = "ok"
StorageOk ==
    LET d == decl[NewContent.v + 1] IN
    /\ OIsHdl
    /\ IF HasBlk(NewContent.v) THEN o.b # 0 ELSE TRUE
    /\ BlkOf(NewContent.v, o.b) # 0 => o.b \in S(e.made) \ S(e.gone)
LayoutOk ==
    LET d == decl[NewContent.v + 1] IN
    HasBlk(NewContent.v) =>
      IF d.kind = "tuple" /\ Len(d.cls) = 1
      THEN o.size = d.min /\ o.balign = Pow2(d.al)
      ELSE o.size >= d.min /\ o.balign >= Pow2(d.al)
FreshAssets == IF Op \in Converts \/ ByCopy \/ WantRes # "ok" THEN {}
               ELSE IF Op \in Makes \cup Clones THEN Assets(NewContent.f)
               ELSE IF Op = "poke" /\ o.k = "box" /\ Len(o.f) = 1 THEN Assets(<<o.f[1]>>)
               ELSE {}
FreshOk == FreshAssets \subseteq S(e.made) \ S(e.gone)

\* a change made through a cell while the value was borrowed is gone
Lost == LET i == Arg(3) + 1
            f == Here(src).f
        IN /\ o.k = slot[src].k /\ i \in DOMAIN f /\ f[i][1] # Arg(4)
           /\ o.v = Here(src).v /\ o.f = f

\* enough is known to take the step
Shaped ==
    /\ Stores => OIsHdl
    /\ (Op = "make" \/ Stores) => o.k # "none"
    /\ Op \in {"mkbad"} /\ WantRes = "ok" => OIsHdl
    /\ Op = "poke" => o.k = "box" /\ Len(o.f) = 1

Act ==
    CASE Op = "make" -> Make(src, NewContent)
      [] Op \in {"tobox", "falloctobox"} ->
            IF WantRes = "ok" THEN ToHandle(src, "box", WantTag, BlkOf(NewContent.v, o.b), o.addr) ELSE Refuse(src)
      [] Op \in {"tocont", "falloctocont"} ->
            IF WantRes = "ok" THEN ToHandle(src, "cont", WantTag, BlkOf(NewContent.v, o.b), o.addr) ELSE Refuse(src)
      [] Op \in {"contpay", "falloccontpay"} ->
            IF WantRes = "ok" THEN Store(src, "cont", NewContent, WantTag, BlkOf(NewContent.v, o.b), o.addr) ELSE RefuseNew(src)
      [] Op \in {"paynew", "fallocpaynew"} ->
            IF WantRes = "ok" THEN Store(src, "box", NewContent, WantTag, BlkOf(NewContent.v, o.b), o.addr) ELSE RefuseNew(src)
      [] Op = "stdnew" -> Store(src, "std", NewContent, 0, BlkOf(NewContent.v, o.b), o.addr)
      [] Op = "stdraw" -> StdRaw(src)
      [] Op = "relocate" -> Relocate(src, o.addr)
      [] Op = "rawstd" -> RawStd(src)
      [] Op \in {"frombox", "continner", "stdread", "payinner"} ->
            IF WantRes = "ok" THEN Extract(src) ELSE ExtractBad(src)
      [] Op = "wrap" -> Wrap(src)
      [] Op = "unwrap" -> Unwrap(src)
      [] Op = "intoraw" -> IntoRaw(src)
      [] Op = "fromraw" -> IF WantRes = "ok" THEN FromRaw(src, WantTag) ELSE FromRawBad(src)
      [] Op = "intostd" -> IntoStd(src)
      [] Op = "mkbad" -> IF WantRes = "ok" THEN MakeBad(src, WantTag, o.addr) ELSE RefuseNew(src)
      [] Op = "move" -> Move(src, dst)
      [] Op = "drop" -> Discard(src)
      [] Op \in {"view", "vin"} -> View(src)
      [] Op = "viewd" -> ViewDeep(src, Arg(2), Arg(3))
      [] Op = "view2" -> View2(src, Arg(2))
      [] Op \in CloneFroms ->
            IF ByCopy THEN CopyFrom(src, dst) ELSE
            IF WantRes = "ok" THEN CloneFrom(src, dst, NewContent, BlkOf(NewContent.v, o.b), o.addr) ELSE IF slot[dst].k = slot[src].k THEN FailOver(src, dst) ELSE Fail(src)
      [] Op \in {"clone", "fclone", "fallocclone"} ->
            IF ByCopy THEN Copy(src, dst) ELSE
            IF WantRes = "ok" THEN Clone(src, dst, NewContent, BlkOf(NewContent.v, o.b), o.addr) ELSE Fail(src)
      [] Op = "copy" -> Copy(src, dst)
      [] Op = "cmp" -> Compare(src, Arg(2))
      [] Op = "fmt" -> Format(src)
      [] Op \in {"fview", "fview2", "fcmp", "ffmt", "fwrite"} -> Fail(src)
      [] Op = "payref" -> PayRef(src)
      [] Op = "poke" -> Poke(src, <<Arg(3), o.f[1][2]>>)
      \* the same again and again; every outcome must be the one of the first time
      [] Op \in {"hview", "hclone"} -> View(src)
      [] Op = "hcmp" -> Compare(src, Arg(3))
      [] Op = "hfmt" -> Format(src)
      [] Op = "hconv" -> Keep /\ UNCHANGED fixed /\ out' = <<"ok">>
      [] Op = "vpoke" -> IF Lost THEN View(src) ELSE ViewPoke(src, Arg(3) + 1, Arg(4))

-----------------------------------------------------------------------------
\* What was recorded, against the state the action leads to

\* the operations that say what they saw
Same(c, v, f) == c.v = v /\ c.f = f
Seen ==
    CASE Op = "vpoke" ->
            /\ Check("view", Len(e.seen) = 1, <<"the callback ran", Len(e.seen), "times">>)
            /\ \A i \in DOMAIN e.seen : Check("view", Same(Here(src), e.seen[i].v, e.seen[i].f),
                    <<"the callback saw", e.seen[i], "not", Here(src)>>)
            /\ IF Lost THEN Viol("lost", <<IF israw THEN "in a raw box" ELSE IF Here(src).f[Arg(3) + 1][2] # 0 THEN "behind a pointer of the value"
                                                  ELSE "in the value itself", Arg(4)>>)
               ELSE TRUE
      [] Op = "viewd" ->
            LET want == IF Bad(src) THEN 0 ELSE IF BadArg THEN 1 ELSE Arg(3) IN
            /\ Check("view", Len(e.seen) = want, <<"the callbacks ran", Len(e.seen), "times, not", want>>)
            /\ \A i \in DOMAIN e.seen :
                 LET c == Here(IF i % 2 = 1 THEN src ELSE Arg(2)) IN
                 Check("view", Same(c, e.seen[i].v, e.seen[i].f), <<"the callback at depth", i, "saw", e.seen[i], "not", c>>)
      [] Op \in {"view", "fview", "vin"} ->
            LET want == IF BadArg THEN 0 ELSE 1 IN
            /\ Check("view", Len(e.seen) = want, <<"the callback ran", Len(e.seen), "times">>)
            /\ \A i \in DOMAIN e.seen : Check("view", Same(Here(src), e.seen[i].v, e.seen[i].f),
                    <<"the callback saw", e.seen[i], "not", Here(src)>>)
      [] Op \in {"view2", "fview2"} ->
            LET want == IF BadArg THEN 0 ELSE 1
                t == Arg(2) IN
            /\ Check("view", Len(e.seen) = want, <<"the nested callback ran", Len(e.seen), "times">>)
            /\ \A i \in DOMAIN e.seen :
                 Check("view", Same(Here(src), e.seen[i].v, e.seen[i].f) /\ Same(Here(t), e.seen[i].v2, e.seen[i].f2),
                    <<"the nested callback saw", e.seen[i], "not", Here(src), Here(t)>>)
      [] Op = "cmp" ->
            IF BadArg THEN Check("bad", \A i \in DOMAIN (e.cmp \o e.pick) : (e.cmp \o e.pick)[i] = 9, <<"compared an unknown variant", e.cmp, e.pick>>)
            ELSE LET r == SubSeq(Result(Here(src), Here(Arg(2))), 1, Len(e.cmp)) IN
                 /\ Check("cmp", e.cmp = r, <<"comparisons give", e.cmp, "not", r, "for", Plain(src), Plain(Arg(2))>>)
                 /\ LET one == slot[src].addr = slot[Arg(2)].addr /\ slot[src].tag = slot[Arg(2)].tag
                        want == Choices(decl, Here(src).v, Strip(Here(src).f), Here(Arg(2)).v, Strip(Here(Arg(2)).f))
                    IN \A i \in DOMAIN e.pick : Check("cmp", e.pick[i] = IF one THEN 3 ELSE want[i],
                            <<"max, min, clamp, max_by, max choose", e.pick, "not", want, "for", Plain(src), Plain(Arg(2))>>)
      [] Op = "fcmp" ->
            IF BadArg THEN TRUE
            ELSE /\ Check("cmp", e.cmp = e.ref, <<"faulty comparison gives", e.cmp, "not", e.ref>>)
                 /\ IF e.ref = <<9>> THEN TRUE
                    ELSE Check("cmp", e.ref[1] = Result(Here(src), Here(Arg(2)))[Arg(4) + 1],
                               <<"comparison", Arg(4), "gives", e.ref>>)
      [] Op \in {"fmt", "ffmt", "fwrite"} ->
            IF BadArg THEN TRUE
            ELSE Check("fmt", e.text = e.reftext, <<"format", Arg(2), "prints", e.text, "not", e.reftext>>)
      [] Op \in {"hview", "hclone"} ->
            \A i \in DOMAIN e.seen : Check("view", e.seen[i].v = Here(src).v /\ Strip(e.seen[i].f) = Strip(Here(src).f),
                <<"repeated", Op, "saw", e.seen[i], "not", Here(src)>>)
      [] Op = "hconv" ->
            \A i \in DOMAIN e.seen : Check("value", e.seen[i].v = Arg(3) /\ Strip(e.seen[i].f) = ToksFrom(4),
                <<"repeated conversion gives", e.seen[i], "not", Arg(3), ToksFrom(4)>>)
      [] Op = "hcmp" ->
            \A i \in DOMAIN e.cmps : Check("cmp", e.cmps[i] = SubSeq(Result(Here(src), Here(Arg(3))), 1, Len(e.cmps[i])),
                <<"repeated comparison gives", e.cmps[i], "for", Plain(src), Plain(Arg(3))>>)
      [] Op = "hfmt" ->
            \A i \in DOMAIN e.texts : Check("fmt", e.texts[i] = e.reftext, <<"repeatedly printed as", e.texts[i], "not", e.reftext>>)
      [] Op = "payref" ->
            /\ Check("addr", e.addr = slot[src].addr, <<"accessor", Arg(3), "gives", e.addr, "not", slot[src].addr>>)
            /\ Check("pay", e.look = Here(src).f, <<"accessor", Arg(3), "reads", e.look, "not", Here(src).f>>)
      [] OTHER -> TRUE

\* the aspect of a difference at the slot of the operation, or of one elsewhere
At(s, aspect) == IF s = src \/ s = dst THEN aspect ELSE "frame"

SlotOk(s) ==
    LET h == slot'[s]
        c == Content(slot', heap', s)
        x == Obs(s)
    IN
    IF h.k = "none" \/ x.k # h.k THEN Check(At(s, "kind"), x.k = h.k, <<"slot", s, "is", x.k, "not", h.k>>)
    ELSE IF h.k = "val"
    THEN Check(At(s, "value"), x.v = c.v /\ x.f = c.f, <<"slot", s, "val is", <<x.v, x.f>>, "not", <<c.v, c.f>> >>)
    ELSE
      /\ Check(At(s, "tag"), x.tag = h.tag, <<"slot", s, h.k, "has tag", x.tag, "not", h.tag>>)
      /\ Check(At(s, "addr"), x.addr = h.addr, <<"slot", s, h.k, "moved from", h.addr, "to", x.addr>>)
      /\ Check(At(s, "addr"), x.b = h.b \/ (h.b = 0 /\ c.v >= 0 /\ ~HasBlk(c.v)), <<"slot", s, h.k, "designates block", x.b, "not", h.b>>)
      /\ Check(At(s, "addr"), x.al # 99 /\ (c.v >= 0 => x.al >= decl[c.v + 1].al), <<"slot", s, h.k, "null or misaligned", x.addr>>)
      /\ IF c.v = -1 THEN TRUE
         ELSE /\ Check(At(s, IF h.k \in {"ptr", "std"} THEN "pay" ELSE "seen"), x.v = c.v /\ [i \in DOMAIN x.f |-> x.f[i][1]] = Strip(c.f),
                       <<"slot", s, h.k, "shows", <<x.v, x.f>>, "not", <<c.v, c.f>> >>)
              /\ Check(At(s, "object"), Len(x.f) # Len(c.f) \/ \A i \in DOMAIN c.f : x.f[i][2] = c.f[i][2] \/ x.f[i][1] < 0,
                       <<"slot", s, h.k, "shows other payload objects", x.f, "not", c.f>>)

-----------------------------------------------------------------------------
\* Ownership

Live2 == (live \cup S(e.made)) \ S(e.gone)
ZLive2 == zlive + e.z[1] - e.z[2]

KindsLost(new) ==
    LET pre == Block(slot, src) \cup Block(slot, dst)
        val == Assets(Here(src).f) \cup Assets(Here(dst).f)
    IN  (IF new \cap pre # {} THEN <<"storage">> ELSE <<>>)
        \o (IF new \cap val # {} THEN <<"value">> ELSE <<>>)
        \o (IF new \ (pre \cup val) # {} THEN <<"new">> ELSE <<>>)

Ownership ==
    LET own == Own(slot', heap')
        zown == ZSum(slot', heap', Slots)
        new == live' \ (own \cup lost)
    IN
    /\ lost' = (lost \cup new) \cap live'
    /\ zlost' = IF zlive' - zlost > zown THEN zlive' - zown ELSE zlost
    /\ Check("leak", new = {}, <<e.res, slot[dst].k, KindsLost(new)>>)
    /\ Check("leak", zlive' - zlost <= zown, <<e.res, slot[dst].k, <<"value">> >>)
    /\ Check("early", own \subseteq live', <<"given back while still owned", own \ live'>>)
    /\ Check("early", zlive' >= zown, <<"zero-sized value dropped while still owned">>)

Twice ==
    /\ Check("twice", Len(e.gone) = Cardinality(S(e.gone)) /\ S(e.gone) \subseteq live \cup S(e.made), <<"given back twice", e.gone>>)
    /\ Check("twice", Len(e.bad) = 0, e.bad)

-----------------------------------------------------------------------------

Keep2 == UNCHANGED hvars

\* a new run: the configuration it was built with
Run ==
    /\ e.op = "run"
    /\ maxtag' = Pow2(64 - e.w) - 1
    /\ off' = TRUE
    /\ UNCHANGED <<decl, israw, slot, heap, alive, zalive, wrong, out, live, lost, zlive, zlost, copyable>>

Case ==
    /\ e.op = "case"
    /\ decl' = e.decl
    /\ israw' = e.raw
    /\ copyable' = e.copy
    /\ slot' = [s \in Slots |-> None]
    /\ heap' = <<>> /\ alive' = {} /\ zalive' = 0 /\ wrong' = FALSE /\ out' = <<>>
    /\ maxtag' = maxtag
    /\ off' = FALSE /\ live' = {} /\ lost' = {} /\ zlive' = 0 /\ zlost' = 0

Skip ==
    /\ \/ e.op = "end" \/ (off /\ e.op \notin {"run", "case"})
    /\ Keep2 /\ off' = TRUE /\ UNCHANGED <<live, lost, zlive, zlost, copyable>>

Derail == Keep2 /\ off' = TRUE /\ live' = Live2 /\ zlive' = ZLive2 /\ UNCHANGED <<lost, zlost, copyable>>

Step ==
    /\ e.op \notin {"run", "case", "end"} /\ ~off
    /\ Twice
    /\ IF e.res # WantRes THEN
            /\ Viol(IF OutOfRange THEN "refuse" ELSE IF BadArg THEN "bad" ELSE "result", <<"outcome", e.res, "not", WantRes>>)
            /\ (Op \in {"view", "fview", "view2", "fview2", "vin", "viewd"} => Seen)
            /\ Derail
       ELSE IF ~Shaped THEN Viol("kind", <<"slot", dst, "is", o.k>>) /\ Derail
       ELSE IF Stores /\ ~StorageOk THEN
            Viol("storage", <<"no storage of its own", o.b, e.made>>) /\ Derail
       ELSE IF ~FreshOk THEN
            Viol("objects", <<"no values of its own", FreshAssets, e.made>>) /\ Derail
       ELSE
            /\ Stores => Check("layout", LayoutOk, <<"block of", o.size, o.balign, "for", decl[NewContent.v + 1].min, decl[NewContent.v + 1].al>>)
            /\ Act
            /\ live' = Live2 /\ zlive' = ZLive2 /\ off' = FALSE
            /\ Seen
            /\ \A s \in Looked : SlotOk(s)
            /\ Ownership
            /\ UNCHANGED copyable

TInit ==
    /\ l = 1 /\ off = TRUE
    /\ decl = <<>> /\ israw = FALSE /\ maxtag = 15
    /\ slot = [s \in Slots |-> None] /\ heap = <<>> /\ alive = {} /\ zalive = 0 /\ wrong = FALSE /\ out = <<>>
    /\ live = {} /\ lost = {} /\ zlive = 0 /\ zlost = 0 /\ copyable = FALSE

TNext == l <= Len(Trace) /\ l' = l + 1 /\ (Run \/ Case \/ Skip \/ Step)

TSpec == TInit /\ [][TNext]_tvars
\* the whole trace was taken; an operation that is not permitted stops it
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
