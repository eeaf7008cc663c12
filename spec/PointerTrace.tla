---------------------------- MODULE PointerTrace ----------------------------
(***************************************************************************)
(* Judges executions of the real TaggedPointer and TaggedBox constructors, *)
(* recorded by harness/words, against TaggedPointer.tla.  Every     *)
(* line is one call; `new', `fromraw', `box' and `dang' are steps of the   *)
(* specification (New, Dangling), whose outcome and resulting register     *)
(* must be what the code reported; the other lines are observations of     *)
(* functions of words.  A mismatch is printed as                           *)
(*    VIOL [aspect, line, what]                                       *)
(* and the validation continues, so that one run reports all of them.      *)
(***************************************************************************)
EXTENDS TaggedPointer, WordText, Settings, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l      \* next line

tvars == <<vars, l>>

S(q) == {q[i] : i \in DOMAIN q}

Viol(aspect, what) == PrintT("VIOL " \o ToJson(<<aspect, l, what>>))
Check(aspect, ok, what) == IF ok THEN TRUE ELSE Viol(aspect, what)

e == Trace[l]
Is(op) == e.op = op

\* every accessor result `n' recorded for this call has the value `want'
OutIs(name, value) ==
    \A g \in S(e.out) : name \in S(g.n) => S(g.v) = value
HasOut(name) == \E g \in S(e.out) : name \in S(g.n)
OutOf(name) == LET g == CHOOSE g \in S(e.out) : name \in S(g.n) IN S(g.v)

TInit ==
    /\ l = 1
    /\ w = 60 /\ reg = {} /\ refused = FALSE
    /\ want = [p |-> {}, d |-> {}]

Quiet == UNCHANGED vars

(***************************************************************************)
(* C03: the exported constants                                             *)
(***************************************************************************)
Cfg ==
    LET v == WidthOf(e.setting) IN
    /\ Check("cfg", e.pw = v /\ e.db = 64 - v, <<"bit counts", e.setting, e.pw, e.db>>)
    /\ Check("cfg", S(e.maxd) = Mask(64 - v), <<"maximum tag", e.setting, e.maxd>>)
    /\ Check("cfg", S(e.maxp) = Mask(v) /\ S(e.mask) = Mask(v), <<"maximum address or mask", e.setting>>)
    /\ Check("cfg", e.tagbits >= 64 - v, <<"tag type too small", e.setting, e.tagbits>>)
    /\ Check("cfg", e.sizes = <<8, 8, 8, 8, 24>> /\ e.aligns = <<8, 8>>, <<"handle size", e.sizes, e.aligns>>)
    \* later lines are judged at the width the setting stands for
    /\ w' = v /\ reg' = {} /\ refused' = FALSE /\ want' = [p |-> {}, d |-> {}]

Tiny ==
    /\ Check("cfg", \A i \in DOMAIN e.ok : e.ok[i], <<"macro-made enum does not round-trip", e.ok>>)
    /\ Quiet

(***************************************************************************)
(* Construction                                                            *)
(***************************************************************************)
Made(what) ==
    /\ Check("refuse", (e.res = "panic") = refused',
             <<what, IF refused' THEN "accepted but out of range" ELSE "refused but in range", S(e.d)>>)
    /\ IF refused' \/ e.res # "ok" THEN TRUE ELSE
        /\ Check("pack", OutIs("disc", FetchTag(w, reg')), <<what, "tag read back differs">>)
        /\ Check("pack", OutIs("addr", StripTag(w, reg')), <<what, "address read back differs">>)
        /\ Check("pack", OutIs("raw", reg'), <<what, "raw word differs">>)

MadeNew == New(S(e.p), S(e.d)) /\ Made(e.op)

\* the address a placeholder gets is the implementation's choice, as long as it
\* is aligned; the register is the packing of that address and the tag
MadeDangling ==
    LET a == IF e.res = "ok" /\ HasOut("addr") THEN OutOf("addr") ELSE {e.k}
    IN  /\ New(IF AddrFits(w, a) THEN a ELSE {e.k}, S(e.d))
        /\ Made(e.what)
        /\ IF refused' \/ e.res # "ok" THEN TRUE
           ELSE /\ Check("pack", AlignedNonNull(e.k, a), <<e.what, "placeholder null or misaligned", e.k>>)
                \* small alignments must leave the address inside the range
                /\ Check("pack", AddrFits(w, a), <<e.what, "placeholder address out of range">>)

\* boxes that own memory: the address is the allocator's
MadeBox == 
    LET a == IF e.res = "ok" /\ HasOut("addr") THEN OutOf("addr") ELSE {e.k}
    IN  /\ New(a, S(e.d))
        /\ Made(<<"box", e.what>>)
        /\ IF refused' \/ e.res # "ok" THEN TRUE
           ELSE Check("pack", AlignedNonNull(e.k, a), <<"box address null or misaligned", e.what, e.k>>)

RawWord ==
    LET x == S(e.x) IN
    /\ Check("pack", OutIs("disc", FetchTag(w, x)), "fetch_discriminant of a raw word")
    /\ Check("pack", OutIs("addr", StripTag(w, x)), "strip_discriminant of a raw word")
    /\ Check("pack", OutIs("raw", x), "store of the parts of a raw word")
    /\ Quiet

(***************************************************************************)
(* C14                                                                     *)
(***************************************************************************)
Cmp ==
    LET x == S(e.x)  y == S(e.y)  c == CmpW(x, y) IN
    /\ Check("order", e.eq = (c = 0) /\ e.ne = (c # 0), <<"equality", e.eq, e.ne>>)
    /\ Check("order", e.lt = (c < 0) /\ e.le = (c <= 0) /\ e.gt = (c > 0) /\ e.ge = (c >= 0), "operators")
    /\ Check("order", e.cmp = c /\ e.pcmp = c, <<"cmp", e.cmp, e.pcmp, c>>)
    /\ Check("order", S(e.max) = (IF c > 0 THEN x ELSE y) /\ S(e.min) = (IF c > 0 THEN y ELSE x), "max or min")
    /\ Check("order", c = 0 => e.hash, "equal but hashed differently")
    /\ Check("order", e.copies, "copies differ from the original")
    /\ Check("order", e.sorted, "sorting")
    /\ Check("order", e.sets = (IF c = 0 THEN <<1, 1>> ELSE <<2, 2>>), <<"members of sets", e.sets>>)
    /\ Quiet

\* in-range parts were refused
CmpFail == Check("refuse", FALSE, "parts of a word refused") /\ Quiet

(***************************************************************************)
(* C11, number formats                                                     *)
(***************************************************************************)
NFmt ==
    LET a == StripTag(w, S(e.x)) IN
    /\ Check("fmt", e.text = NumText(a, e.f), <<e.what, e.f.kind, e.text, NumText(a, e.f)>>)
    /\ Quiet

PtrFmt(alt) == [kind |-> "p", plus |-> FALSE, alt |-> alt, zero |-> FALSE, width |-> 0, fill |-> " ", align |-> ""]

Dbg ==
    LET x == S(e.x)  a == StripTag(w, x)
        plain == "TaggedPointer { raw: " \o NumText(x, PtrFmt(FALSE)) \o ", ptr: " \o NumText(a, PtrFmt(FALSE))
                    \o ", discriminant: " \o ToString(e.d) \o " }"
        pretty == "TaggedPointer {\n    raw: " \o NumText(x, PtrFmt(TRUE)) \o ",\n    ptr: " \o NumText(a, PtrFmt(TRUE))
                    \o ",\n    discriminant: " \o ToString(e.d) \o ",\n}"
    IN  /\ Check("fmt", e.text = plain, <<"Debug", e.text, plain>>)
        /\ Check("fmt", e.alt = pretty, <<"Debug, alternate", e.alt, pretty>>)
        /\ Quiet

(***************************************************************************)
(* C02: enums with more variants than tags.  e.n variants were declared;   *)
(* r is one attempt to store variant r.pos: refused, or stored and read    *)
(* back as variant r.back through a handle with tag r.tag                  *)
(***************************************************************************)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)

Wide ==
    LET room == Pow2(64 - w) IN
    /\ Check("refuse", e.n <= room => e.compiled, <<"enum that fits is rejected", e.n>>)
    /\ \A r \in S(e.tries) :
        /\ Check("refuse", r.pos < room => r.res = "ok", <<"variant that fits is refused", e.n, r.pos>>)
        /\ Check("refuse", r.pos >= room => r.res = "panic", <<"variant without a tag is accepted", e.n, r.pos, r.back>>)
        /\ Check("refuse", r.res = "ok" => r.tag = r.pos /\ r.back = r.pos, <<"variant reads back as another", e.n, r>>)
    /\ Quiet

TNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ CASE Is("cfg") -> Cfg
         [] Is("tiny") -> Tiny
         [] Is("new") \/ Is("fromraw") -> MadeNew
         [] Is("dang") -> MadeDangling
         [] Is("box") -> MadeBox
         [] Is("raw") -> RawWord
         [] Is("cmp") -> Cmp
         [] Is("cmpfail") -> CmpFail
         [] Is("nfmt") -> NFmt
         [] Is("dbg") -> Dbg
         [] Is("wide") -> Wide

TSpec == TInit /\ [][TNext]_tvars

Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
