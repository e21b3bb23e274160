--------------------------- MODULE TimeSteppingMC ---------------------------
(* Every pattern of attempt results for small simulations; the patterns are    *)
(* also the scripts the real time stepper is driven with.                      *)
EXTENDS TimeStepping, TLC, Json, IOUtils, CSV
VARIABLES script, accepted
mcvars == <<step, attempt, phase, verdict, script, accepted>>
Init == TSInit /\ script = <<>> /\ accepted = <<>>
DoPrepare == Prepare /\ UNCHANGED <<script, accepted>>
DoRetry == Retry /\ UNCHANGED <<script, accepted>>
DoReturn == Return /\ UNCHANGED <<script, accepted>>
DoGiveUp == GiveUp /\ UNCHANGED <<script, accepted>>
DoConverge == Converge /\ script' = Append(script, "ok") /\ accepted' = Append(accepted, step)
DoFail == FailAttempt /\ script' = Append(script, "nan") /\ UNCHANGED accepted
DoThrow == ThrowAttempt /\ script' = Append(script, "sing") /\ UNCHANGED accepted
Next == DoPrepare \/ DoRetry \/ DoReturn \/ DoGiveUp \/ DoConverge \/ DoFail \/ DoThrow
Spec == Init /\ [][Next]_mcvars /\ WF_mcvars(Next)
Done == /\ verdict \in {"returned", "failed"}
        /\ CSVWrite("%1$s", <<ToJson([script |-> script, steps |-> Steps, retries |-> Retries, simplified |-> Simplified, verdict |-> verdict])>>, IOEnv.GENOUT)
        /\ verdict' = "over" /\ UNCHANGED <<step, attempt, phase, script, accepted>>
GenSpec == Init /\ [][Next \/ Done]_mcvars
InOrder == accepted = [i \in 1..Len(accepted) |-> i]
ReturnedAll == verdict = "returned" => Len(accepted) = Steps
GaveUpWell == verdict = "failed" => Len(accepted) < Steps
Bounded == attempt <= MaxAttempts(Simplified, Retries)
Ends == <>(verdict # "none")
=============================================================================
