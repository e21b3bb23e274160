--------------------------- MODULE OverwriteTrace ---------------------------
(* Overwriting by the real code with failing operations: the directory is     *)
(* shown after every operation. Which operations they are is left to the code. *)
EXTENDS Overwrite, TraceBase
Step(e) ==
  \/ /\ e.ev = "Start" /\ pc = "end"
     /\ disk' = e.disk /\ first' = e.disk /\ pc' = "begin" /\ UNCHANGED <<aside, faults, told>>
  \/ /\ e.ev = "Op" /\ pc # "end"
     /\ Kept(e.disk, first) /\ Bystanders(e.disk, first)
     /\ disk' = e.disk /\ pc' = "create" /\ UNCHANGED <<first, aside, faults, told>>
  \/ /\ e.ev = "End" /\ pc # "end"
     /\ Kept(e.disk, first) /\ Bystanders(e.disk, first)
     /\ e.ok => Success(e.disk, first) /\ e.faults = 0
     /\ e.faults = 0 => e.ok
     /\ e.faults <= 1 => Whole(e.disk, first)
     /\ disk' = e.disk /\ pc' = "end" /\ faults' = e.faults /\ told' = (IF e.ok THEN "ok" ELSE "failed") /\ UNCHANGED <<first, aside>>
Init == disk = <<>> /\ first = <<>> /\ pc = "end" /\ aside = "" /\ faults = 0 /\ told = "" /\ TraceStart
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_<<ovars, l>>
=============================================================================
