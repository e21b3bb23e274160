---------------------------- MODULE ResultsTrace ----------------------------
(* Saved results and controls of real networks, and controls read back. *)
EXTENDS Results, NetTrace
Step(e) ==
  \/ e.ev = "Net" /\ FirstBuild(e)
  \/ e.ev = "Results" /\ Same /\ Complete(net, num, e.times, e.states, e.out)
  \/ /\ e.ev = "ReadBack" /\ Same
     /\ e.saved /\ CompleteControls(net, num, e.times, e.values, e.out)
     /\ /\ e.reread /\ e.again = e.values
                         /\ e.sim1 = e.sim2 /\ e.states1 = e.states2
Init == NInit /\ log = <<>> /\ last = <<>>
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l]) /\ UNCHANGED <<log, last>>
Spec == Init /\ [][Next]_<<nvars, log, last>>
=============================================================================
