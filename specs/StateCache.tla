----------------------------- MODULE StateCache -----------------------------
(* The cache of simulated states: what it holds is always the result of one    *)
(* request. Requests are identified by their inputs; Simulates(k) says whether *)
(* the simulation of request k succeeds.                                       *)
EXTENDS Integers, Sequences
VARIABLES held, failed
scvars == <<held, failed>>
(* <<k>>: request k; <<>>: nothing *)
None == <<>>
SCInit == held = None /\ failed = None
(* always simulates anew *)
Refresh(k, simulates, ok, sims) ==
  /\ ok = simulates
  /\ (~(held = <<k>> \/ failed = <<k>>) => sims)
  /\ IF ok THEN held' = <<k>> /\ UNCHANGED failed ELSE failed' = <<k>> /\ UNCHANGED held
(* simulates only what it does not know *)
Check(k, simulates, ok, sims) ==
  /\ ok = simulates
  /\ (held = <<k>> => ~sims)
  /\ (~(held = <<k>> \/ failed = <<k>>) => sims)
  /\ IF ok THEN held' = <<k>> /\ UNCHANGED failed
     ELSE UNCHANGED held /\ failed' = <<k>>
Get == UNCHANGED scvars
=============================================================================
