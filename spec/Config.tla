------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* The life of a build directory: the setting in the environment changes,  *)
(* and builds happen.  C03's "changing the setting takes effect at the     *)
(* next build": after a build the artifact is the one of the setting in    *)
(* force.  Tracked says whether the build system knows that the artifact   *)
(* depends on the setting; with FALSE, TLC shows Fresh violated.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Settings, Tracked, Depth, WidthOf(_)

VARIABLES setting,  \* in the environment now
          built,    \* the setting the artifact was made with, or "none"
          seen,     \* what the build system remembers of the last build
          hist      \* settings at the builds so far (generation only)

cvars == <<setting, built, seen, hist>>

CInit == setting = "unset" /\ built = "none" /\ seen = "none" /\ hist = <<>>

SetEnv == \E s \in Settings \ {setting} :
    /\ setting' = s
    /\ Len(hist) < Depth
    /\ UNCHANGED <<built, seen, hist>>

Build ==
    /\ Len(hist) < Depth
    /\ built' = IF built = "none" \/ (Tracked /\ seen # setting) THEN setting ELSE built
    /\ seen' = setting
    /\ hist' = Append(hist, setting)
    /\ UNCHANGED setting

Next == Build \/ SetEnv
CSpec == CInit /\ [][Next]_cvars

Fresh == seen # "none" /\ seen = setting => WidthOf(built) = WidthOf(setting)
\* for generation: print the walk when it is complete
Walk == (Len(hist) = Depth /\ \A i \in 2..Depth : hist[i] # hist[i-1])
        => PrintT("WALK " \o ToJson(hist))
\* generated walks build after every change, and only then
Alternate ==
    /\ setting' # setting => (seen = setting \/ hist = <<>>)
    /\ hist' # hist => seen # setting
View == <<setting, built, seen>>
=============================================================================
