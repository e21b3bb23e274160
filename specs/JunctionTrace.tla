--------------------------- MODULE JunctionTrace ---------------------------
(* Gas nodes: the residuals of their rows, and the states simulations return. *)
EXTENDS GasNet, NetTrace
TOL == "1e-9"
GasN == { n \in net : n.type \in GasNodes }
Step(e) ==
  \/ e.ev = "Net" /\ FirstBuild(e)
  \/ /\ e.ev = "Eval" /\ Same
     /\ \A n \in GasN : NodeRows(net, num, e.new, n, e.t1, e.full[1], RowsOf(e, n.id), TOL)
  \/ /\ e.ev = "Sim" /\ Same
     /\ e.ok => \A k \in 2..Len(e.times) : \A n \in GasN :
          JunctionHolds(net, num, e.states[k], n, e.times[k], FAdd(FMul(20, e.tol), TOL))
Init == NInit
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_nvars
=============================================================================
