---------------------------- MODULE OutputsTrace ----------------------------
(* Output locations taken by the real code: runs in one process, scheduled    *)
(* step by step; real processes; and directories filled on a failing disk.    *)
EXTENDS Outputs, TraceBase
ToSet(s) == { s[k] : k \in 1..Len(s) }
Step(e) ==
  \/ /\ e.ev = "Runs"
     /\ owner' = [n \in ToSet(e.before) |-> "before"] /\ asked' = [r \in ToSet(e.runs) |-> <<>>]
     /\ state' = [r \in ToSet(e.runs) |-> "idle"] /\ got' = [r \in ToSet(e.runs) |-> ""] /\ hurt' = {}
  \/ e.ev = "Begin" /\ Begin(e.r)
  \/ e.ev = "Generate" /\ Generate(e.r, e.n)
  \/ e.ev = "Made" /\ e.fresh /\ Take(e.r, e.n)
  \/ e.ev = "Made" /\ ~e.fresh /\ e.n \in Taken /\ owner[e.n] = e.r /\ UNCHANGED xvars   \* its own again
  \/ e.ev = "Rival" /\ Rival(e.n)
  \/ e.ev = "Hurt" /\ Hurt(e.r)
  \/ e.ev = "Done" /\ e.ok /\ Succeed(e.r, e.n)
  \/ e.ev = "Done" /\ ~e.ok /\ GiveUp(e.r)
  \/ /\ e.ev = "End" /\ ~e.endless /\ Intact(e.before, e.after) /\ Exclusive
     /\ \A r \in Runs : state[r] \in {"has", "failed"} /\ (state[r] = "has" => got[r] \in DOMAIN e.after)
     /\ UNCHANGED xvars
  \/ /\ e.ev = "Processes" /\ e.fine /\ Distinct(e.got) /\ ToSet(e.got) \subseteq ToSet(e.there) /\ Len(e.got) > 0 /\ UNCHANGED xvars
  \/ /\ e.ev = "Fill" /\ Intact(e.before, e.after) /\ e.source_after = e.source
     /\ e.ok => Copied(e.source, e.before, e.names, e.after)
     /\ (e.faults = 0 /\ Clear(e.before, e.names)) => e.ok
     /\ UNCHANGED xvars
Init == owner = <<>> /\ asked = <<>> /\ state = <<>> /\ got = <<>> /\ hurt = {} /\ TraceStart
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_<<xvars, l>>
=============================================================================
