---------------------------- MODULE NewtonTrace ----------------------------
EXTENDS Newton, TraceBase
VARIABLES tol, maxit
Init == TraceStart /\ tol = "0" /\ maxit = 0
Call(e) == [P |-> e.P, tl |-> e.tl, tn |-> e.tn, l |-> e.l, u |-> e.u, x0 |-> e.x0]
Step(e) ==
  \/ e.ev = "Solver" /\ tol' = e.tol /\ maxit' = e.maxit
  \/ e.ev = "Solve" /\ UNCHANGED <<tol, maxit>>
     /\ Answer(Call(e), [threw |-> e.threw, kind |-> e.kind, success |-> e.success, residual |-> e.residual,
                         iterations |-> e.iterations, x |-> e.x], tol, maxit)
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_<<l, tol, maxit>>
=============================================================================
