---------------------------- MODULE OptimizerMC ----------------------------
(* How the optimizer keeps track of what is up to date: a cache of states that   *)
(* survives failed simulations, two flags reset by a new point, and derivatives  *)
(* overwritten in place, so that a failed computation leaves a mixture ("bad").  *)
(* Answers are checked against the protocol in Optimizer; the histories are      *)
(* also the call sequences the real optimizer is driven with.                    *)
EXTENDS Optimizer, TLC, Json, IOUtils, CSV
(* derivatives of no point at all *)
NoAnswer == <<>>
Mixture == <<0>>
CONSTANTS Points, SimFails, DerFails, Depth
VARIABLES cached, deriv, upS, upD, answer, hist
vars == <<cur, statesOf, derivOf, cached, deriv, upS, upD, answer, hist>>
Init == OInit /\ cached = Nothing /\ deriv = Nothing /\ upS = FALSE /\ upD = FALSE /\ answer = NoAnswer /\ hist = <<>>
NewX(k) == /\ Announce(k) /\ upS' = FALSE /\ upD' = FALSE /\ answer' = NoAnswer /\ UNCHANGED <<cached, deriv>>
           /\ hist' = Append(hist, [op |-> "NewX", k |-> k])
Fails(S, tr) == cur[1] \in S \/ tr
(* flaky: the simulation may fail once and succeed later *)
Ask(q, flakyS, flakyD) ==
  /\ cur # Nothing
  /\ hist' = Append(hist, [op |-> q, k |-> IF flakyS THEN 1 ELSE 0])
  /\ LET known == NeedsDerivative(q) /\ upD
         simok == known \/ upS \/ ~Fails(SimFails, flakyS)
         derok == known \/ ~NeedsDerivative(q) \/ ~Fails(DerFails, flakyD)
     IN
     /\ cached' = IF ~known /\ ~upS /\ simok THEN cur ELSE cached
     /\ upS' = IF known THEN upS ELSE (upS \/ simok)
     /\ IF ~simok THEN /\ RefuseStates(q) /\ answer' = NoAnswer /\ UNCHANGED <<deriv, upD>>
        ELSE IF ~derok THEN /\ RefuseDerivative(q) /\ answer' = NoAnswer /\ deriv' = Mixture /\ UNCHANGED upD
        ELSE /\ Deliver(q)
             /\ deriv' = IF NeedsDerivative(q) /\ ~known THEN cached' ELSE deriv
             /\ upD' = IF NeedsDerivative(q) THEN TRUE ELSE upD
             /\ answer' = IF NeedsDerivative(q) THEN deriv' ELSE cached'
DoNewX == Len(hist) < Depth /\ \E k \in Points : NewX(k)
DoAsk == Len(hist) < Depth /\ \E q \in Quantities : \E a, b \in BOOLEAN : (b => NeedsDerivative(q)) /\ Ask(q, a, b)
Next == DoNewX \/ DoAsk
Spec == Init /\ [][Next]_vars
(* every answer is that at the current point; refused only if something failed *)
AnswerIsCurrent == answer # NoAnswer => answer = cur
CacheTruthful == (upS => cached = cur) /\ (upD => deriv = cur)
View == <<cur, statesOf, derivOf, cached, deriv, upS, upD, answer, Len(hist)>>
(* call sequences in which the solver may stumble once, and all points work or not *)
GenNext == /\ Len(hist) < Depth
           /\ \/ \E k \in Points : NewX(k)
              \/ \E q \in Quantities : Ask(q, FALSE, FALSE)
              \/ \E q \in Quantities : ~upS /\ Ask(q, TRUE, FALSE)
Done == /\ Len(hist) = Depth
        /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.GENOUT)
        /\ hist' = Append(hist, [op |-> "End", k |-> 0])
        /\ UNCHANGED <<cur, statesOf, derivOf, cached, deriv, upS, upD, answer>>
GenSpec == Init /\ [][GenNext \/ Done]_vars
=============================================================================
