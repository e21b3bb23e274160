--------------------------- MODULE CouplingTrace ---------------------------
(* Couplings: residuals, the gas drawn at the junction, simulated states and  *)
(* reported values; misplaced couplings are rejected.                         *)
EXTENDS GasPower, NetTrace
TOL == "1e-12"
GTOL == "1e-9"
Conns == { c \in net : c.type = "Gaspowerconnection" }
GasEnds == { By(net, c.from) : c \in Conns }
ResultOf(e, id) == e.out[CHOOSE k \in 1..Len(e.out) : e.out[k].id = id]
Has1(e, id) == Cardinality({ k \in 1..Len(e.out) : e.out[k].id = id }) = 1
Reported(c, d, v, t) ==
  LET s == StateStart(num, c.id) IN
  /\ FClose(d.time, t, "0", "1e-14")
  /\ Len(d.pressure) = 1 /\ Len(d.flow) = 1
  /\ FEq(d.pressure[1].x, 0) /\ FEq(d.flow[1].x, 0)
  /\ FEq(d.pressure[1].value, v[s + 1]) /\ FEq(d.flow[1].value, v[s + 2])
Step(e) ==
  \/ e.ev = "Net" /\ Couples(SetOf(e.given)) /\ FirstBuild(e)
  \/ e.ev = "Net" /\ ~e.ok /\ ~Couples(SetOf(e.given)) /\ net' = {} /\ num' = <<>> /\ sid' = e.s
  \/ /\ e.ev = "Eval" /\ Same
     /\ \A c \in Conns : /\ RowsOf(e, c.id) = {StateStart(num, c.id) + 1}
                         /\ Fits(e.full[1][StateStart(num, c.id) + 2], CouplingTerms(net, num, e.new, c), TOL)
     /\ \A n \in GasEnds : NodeRows(net, num, e.new, n, e.t1, e.full[1], RowsOf(e, n.id), GTOL)
  \/ /\ e.ev = "Sim" /\ Same
     /\ e.ok => \A k \in 2..Len(e.times) :
          /\ \A c \in Conns : LET T == CouplingTerms(net, num, e.states[k], c) IN
               FLe(FAbs(FSum(T)), FAdd(FMul(2, e.tol), FMul(TOL, Mass(T))))
          /\ \A n \in GasEnds : JunctionHolds(net, num, e.states[k], n, e.times[k], FAdd(FMul(20, e.tol), GTOL))
  \/ /\ e.ev = "Results" /\ Same
     /\ \A c \in Conns : /\ Has1(e, c.id)
                         /\ LET r == ResultOf(e, c.id) IN
                            /\ Len(r.data) = Len(e.times)
                            /\ \A k \in 1..Len(e.times) : Reported(c, r.data[k], e.states[k], e.times[k])
Init == NInit
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_nvars
=============================================================================
