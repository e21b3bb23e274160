----------------------------- MODULE PowerTrace -----------------------------
(* Power nodes: residuals, simulated states and reported values. *)
EXTENDS PowerNet, NetTrace
TOL == "1e-12"
PowerN == { n \in net : n.type \in PowerNodes }
Cur(e, id) == IF id \in DOMAIN e.cur THEN e.cur[id] ELSE <<"nan", "nan">>
ResultOf(e, id) == e.out[CHOOSE k \in 1..Len(e.out) : e.out[k].id = id]
Has1(e, id) == Cardinality({ k \in 1..Len(e.out) : e.out[k].id = id }) = 1
Step(e) ==
  \/ e.ev = "Net" /\ FirstBuild(e)
  \/ /\ e.ev = "Eval" /\ Same
     /\ \A n \in PowerN : PowerRows(net, num, e.new, n, e.t1, Cur(e, n.id), e.full[1], RowsOf(e, n.id), TOL)
  \/ /\ e.ev = "Sim" /\ Same
     /\ e.ok => \A k \in 2..Len(e.times) : \A n \in { x \in PowerN : x.type # "StochasticPQnode" } :
          PowerHolds(net, num, e.states[k], n, e.times[k], <<>>, FMul(2, e.tol), TOL)
  \/ /\ e.ev = "Results" /\ Same
     /\ \A n \in PowerN : /\ Has1(e, n.id)
                          /\ LET r == ResultOf(e, n.id) IN
                             /\ Len(r.data) = Len(e.times)
                             /\ \A k \in 1..Len(e.times) : Reports(net, num, e.states[k], n, e.times[k], r.data[k], TOL)
Init == NInit
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_nvars
=============================================================================
