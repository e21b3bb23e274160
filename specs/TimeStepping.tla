---------------------------- MODULE TimeStepping ----------------------------
(* A simulation: the time points are passed one after another, every step is   *)
(* prepared and solved in one or several attempts, each starting from the last *)
(* accepted state.                                                             *)
EXTENDS Integers, Sequences
CONSTANTS Steps, Retries, Simplified
VARIABLES step, attempt, phase, verdict
tsvars == <<step, attempt, phase, verdict>>
(* the allowed number of attempts per step *)
MaxAttempts(simplified, retries) == IF simplified THEN 2 * retries + 2 ELSE retries + 2
TSInit == step = 0 /\ attempt = 0 /\ phase = "accepted" /\ verdict = "none"
(* the next step, after the previous one has been accepted *)
Prepare == /\ verdict = "none" /\ phase = "accepted" /\ step < Steps
           /\ step' = step + 1 /\ attempt' = 1 /\ phase' = "attempting" /\ UNCHANGED verdict
Retry == /\ verdict = "none" /\ phase = "failed" /\ attempt < MaxAttempts(Simplified, Retries)
         /\ attempt' = attempt + 1 /\ phase' = "attempting" /\ UNCHANGED <<step, verdict>>
Converge == phase = "attempting" /\ phase' = "accepted" /\ UNCHANGED <<step, attempt, verdict>>
FailAttempt == phase = "attempting" /\ phase' = "failed" /\ UNCHANGED <<step, attempt, verdict>>
ThrowAttempt == phase = "attempting" /\ phase' = "thrown" /\ UNCHANGED <<step, attempt, verdict>>
Return == /\ verdict = "none" /\ phase = "accepted" /\ step = Steps
          /\ verdict' = "returned" /\ UNCHANGED <<step, attempt, phase>>
GiveUp == /\ verdict = "none"
          /\ \/ phase = "failed" /\ attempt = MaxAttempts(Simplified, Retries)
             \/ phase = "thrown"
          /\ verdict' = "failed" /\ UNCHANGED <<step, attempt, phase>>
=============================================================================
