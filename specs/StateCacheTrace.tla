-------------------------- MODULE StateCacheTrace --------------------------
EXTENDS StateCache, MockProblem, TraceBase
VARIABLES P, tol
vars == <<l, held, failed, P, tol>>
Init == TraceStart /\ SCInit /\ P = "none" /\ tol = "0"
(* series of nothing are all the same *)
Key(e) == [cpts |-> IF P.m = 0 THEN <<>> ELSE [i \in 1..Len(e.cpts) |-> FNum(e.cpts[i])], cvals |-> [i \in 1..Len(e.cvals) |-> FNum(e.cvals[i])],
           pts |-> [i \in 1..Len(e.pts) |-> FNum(e.pts[i])], init |-> [i \in 1..Len(e.init) |-> FNum(e.init[i])]]
HeldIsRight(e) ==
  IF held' = None THEN e.held = <<>>
  ELSE /\ FCloseSeq(e.heldpts, held'[1].pts, "0", "0")
       /\ Trajectory(P, held'[1].pts, e.held, held'[1].init, held'[1].cpts, held'[1].cvals, tol)
Step(e) ==
  \/ /\ e.ev = "Start" /\ P' = e.P /\ tol' = e.tol /\ held' = None /\ failed' = None
  \/ /\ e.ev = "Cache" /\ UNCHANGED <<P, tol>> /\ ~e.threw
     /\ LET k == Key(e) sim == ~FailsSomewhere(P, e.pts, e.cpts, e.cvals) IN
          CASE e.op = "Refresh" -> Refresh(k, sim, e.ok, e.simulations > 0)
            [] e.op = "Check" -> Check(k, sim, e.ok, e.simulations > 0)
            [] OTHER -> Get /\ e.simulations = 0
     /\ HeldIsRight(e)
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
=============================================================================
