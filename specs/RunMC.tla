------------------------------- MODULE RunMC -------------------------------
(* Bounded runs of Run; the history of a behaviour is replayed on the real    *)
(* program: edits, and how many runs started between two edits.               *)
EXTENDS Run, Sequences, CSV, IOUtils, Json
CONSTANTS MCRuns, MCNames, MCVersions, MaxChanges
VARIABLES hist, started
mvars == <<problem, dirs, phase, mine, seen, hurt, hist, started>>
MCValid(v) == v # "bad"
MCComputable(v) == v # "hard"
Init == /\ problem \in MCVersions /\ dirs = <<>> /\ phase = [r \in MCRuns |-> "idle"] /\ mine = [r \in MCRuns |-> "none"]
        /\ seen = [r \in MCRuns |-> "none"] /\ hurt = {} /\ hist = <<problem>> /\ started = <<0>>
Bump == [started EXCEPT ![Len(started)] = @ + 1]
StartOne == \E r \in MCRuns : \E n \in MCNames : Start(r, n) /\ started' = Bump /\ UNCHANGED hist
ReadOne == \E r \in MCRuns : Read(r) /\ UNCHANGED <<hist, started>>
RefuseOne == \E r \in MCRuns : Refuse(r) /\ UNCHANGED <<hist, started>>
ComputeOne == \E r \in MCRuns : Compute(r) /\ UNCHANGED <<hist, started>>
DivergeOne == \E r \in MCRuns : Diverge(r) /\ UNCHANGED <<hist, started>>
CopyOne == \E r \in MCRuns : Copy(r) /\ UNCHANGED <<hist, started>>
WriteOne == \E r \in MCRuns : Write(r) /\ UNCHANGED <<hist, started>>
BreakOne == \E r \in MCRuns : Break(r) /\ UNCHANGED <<hist, started>>
ChangeIt == Len(hist) <= MaxChanges /\ \E v \in MCVersions : Change(v) /\ hist' = Append(hist, v) /\ started' = Append(started, 0)
Next == StartOne \/ ReadOne \/ RefuseOne \/ ComputeOne \/ DivergeOne \/ CopyOne \/ WriteOne \/ BreakOne \/ ChangeIt
Spec == Init /\ [][Next]_mvars
(* a run on a sound disk on one and the same problem succeeds exactly if it is possible *)
Soundly == \A r \in MCRuns : phase[r] = "failed" /\ r \notin hurt => \E k \in 1..Len(hist) : ~MCValid(hist[k]) \/ ~MCComputable(hist[k])
Over == Active = {} /\ \A r \in MCRuns : phase[r] # "idle"
Emit == Over => CSVWrite("%1$s", <<ToJson([hist |-> hist, started |-> started])>>, IOEnv.GENOUT)
=============================================================================
