------------------------------ MODULE ScopeGen ------------------------------
(***************************************************************************)
(* Walks through the tree of modules and into places, declaring and naming *)
(* on the way; every declaration and every naming becomes a question to    *)
(* the compiler.                                                           *)
(***************************************************************************)
EXTENDS Scope, TLC, Json

VARIABLES at,      \* a point
          path,    \* the places entered there
          decl,    \* <<>>, or what was declared
          named    \* the names given so far since: <<point, what>>
vars == <<at, path, decl, named>>

Init == at = <<"k">> /\ path = <<>> /\ decl = <<>> /\ named = {}

Go == \E p \in Points : path = <<>> /\ at' = p /\ UNCHANGED <<path, decl, named>>
Enter == at = <<"k">> /\ decl = <<>> /\ Len(path) < MaxDepth /\ \E q \in Places : path' = Append(path, q) /\ UNCHANGED <<at, decl, named>>
Declare == path = <<>> /\ decl = <<>> /\ \E d \in Decls : d[1] = at /\ decl' = d /\ UNCHANGED <<at, path, named>>
Name == decl # <<>> /\ \E w \in {"container", "enum"} : MayName(decl, at, w) /\ named' = {<<at, w>>} /\ UNCHANGED <<at, path, decl>>
Next == Go \/ Enter \/ Declare \/ Name
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* What is promised.                                                       *)
(***************************************************************************)
\* who declared it can name it, and so can everything inside
Own == decl # <<>> => \A p \in Below(decl[1]) : MayName(decl, p, "container") /\ MayName(decl, p, "enum")
\* what is public can be named everywhere, what is not stays in its crate, what is private in its module
Closed == \A n \in named :
    LET v == IF n[2] = "container" THEN decl[2] ELSE decl[3] IN
    /\ n[1] = Other => v = "pub"
    /\ v \in {"private", "self"} => Within(decl[1], n[1])
Reach == decl # <<>> => (decl[2] = "pub" => \A p \in Points : MayName(decl, p, "container") /\ MayName(decl, p, "enum"))
\* whoever gets the container can name what is inside
Inside == decl # <<>> => \A p \in Points : MayName(decl, p, "container") => MayName(decl, p, "enum")
\* a declaration fits wherever one can get
Anywhere == \A w \in Worlds : Exists(w, path) => Fits(w, path)

\* the questions: every declaration from every point, every nest of places
Emit ==
    /\ decl # <<>> /\ decl' = decl /\ named' = named => PrintT("NAME " \o ToJson([d |-> decl, p |-> at']))
    /\ path' # path => PrintT("PLACE " \o ToJson(path'))
=============================================================================
