----------------------------- MODULE PathsTrace -----------------------------
(* Answers of the real code for one root and several files. *)
EXTENDS Paths, TraceBase
VARIABLES seen
Roots(e) == \A k \in 1..Len(e.files) : e.files[k].accepted = Inside(e.root, e.files[k].file)
Step(e) == e.ev = "Ask" /\ Roots(e) /\ UNCHANGED pvars /\ seen' = seen + 1
Init == walk = "idle" /\ at = Here /\ todo = <<>> /\ base = Here /\ seen = 0 /\ TraceStart
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_<<pvars, seen, l>>
=============================================================================
