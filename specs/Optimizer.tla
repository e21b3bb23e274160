----------------------------- MODULE Optimizer -----------------------------
(* The optimizer's protocol: points are announced, quantities asked for. cur is *)
(* the announced point; what has been computed for which point is remembered.   *)
EXTENDS Integers, Sequences
Quantities == {"obj", "cost", "pen", "cons", "grad", "jac"}
NeedsDerivative(q) == q \in {"grad", "jac"}
VARIABLES cur, statesOf, derivOf
ovars == <<cur, statesOf, derivOf>>
Nothing == <<>>
OInit == cur = Nothing /\ statesOf = Nothing /\ derivOf = Nothing
Announce(k) == cur' = <<k>> /\ statesOf' = Nothing /\ derivOf' = Nothing
(* the quantity q is delivered: its ingredients are those of the current point *)
Deliver(q) == /\ cur # Nothing
              /\ statesOf' = cur
              /\ IF NeedsDerivative(q) THEN derivOf' = cur ELSE UNCHANGED derivOf
              /\ UNCHANGED cur
(* refused, because the simulation (or the derivative) at the current point failed *)
RefuseStates(q) == cur # Nothing /\ statesOf # cur /\ UNCHANGED ovars
RefuseDerivative(q) == NeedsDerivative(q) /\ cur # Nothing /\ derivOf # cur /\ statesOf' = cur /\ UNCHANGED <<cur, derivOf>>
=============================================================================
