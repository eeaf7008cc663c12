---------------------------- MODULE BorrowTrace -----------------------------
(***************************************************************************)
(* Judges what the compiler said (C16).  A record of the trace is a        *)
(* program (kind of handle and statements), a call in or out of unsafe     *)
(* code, or an enum with the traits the compiler grants it, its box and    *)
(* its container.                                                          *)
(***************************************************************************)
EXTENDS Borrow, Traits, Lend, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Viol(what) == PrintT("VIOL " \o ToJson(<<"borrow", l, what>>))

Judge(e) ==
    CASE e.what = "program" ->
           LET ok == InOrder(e.k, e.prog) IN
           ok = e.accepted \/ Viol(<<IF e.accepted THEN "compiles" ELSE "does not compile", e.k, e.prog>>)
      [] e.what = "call" ->
           LET ok == MayCall(e.call, e.unsafe) IN
           ok = e.accepted \/ Viol(<<IF e.accepted THEN "may be called" ELSE "may not be called", e.call,
                                     IF e.unsafe THEN "in unsafe code" ELSE "in safe code">>)
      [] e.what = "lend" -> Lent(e.prog) = e.accepted \/ Viol(<<IF e.accepted THEN "compiles" ELSE "does not compile", "box of an enum that borrows", e.prog>>)
      [] e.what = "convert" ->
           Converts(e.behind, e.from, e.to) = e.accepted
           \/ Viol(<<"a box of an enum that borrows, behind", e.behind, IF e.accepted THEN "becomes" ELSE "does not become", "one with another lifetime", e.from, e.to>>)
      [] e.what = "traits" ->
           LET d == Ran(e.derived)
               h == Ran(e.byhand) IN
           \* what the compiler says of the enum itself is not the library's doing
           /\ Assert(Ran(e.enum) = d \cup h, <<"the enum has other traits", e>>)
           /\ (AtLeast(d \cup h) \subseteq Ran(e.box) /\ Ran(e.box) \subseteq AtMost(d \cup h)) \/ Viol(<<"the box is", e.box, "for an enum that is", e.enum>>)
           /\ Ran(e.cont) = OfContainer(d) \/ Viol(<<"the container is", e.cont, "derived", e.derived>>)

Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Judge(Trace[l])
TraceSpec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
