--------------------------- MODULE TimeGridTrace ---------------------------
EXTENDS TimeGrid, TraceBase
Init == TraceStart
R(e) == [start |-> e.start, end |-> e.end, delta |-> e.delta, number |-> e.number, cs |-> e.cs, cdelta |-> e.cdelta]
A(e) == [ok |-> e.ok, n |-> e.n, first |-> e.first, last |-> e.last, mingap |-> e.mingap, maxgap |-> e.maxgap,
         pts |-> e.pts, reported |-> IF Has(e, "reported") THEN e.reported ELSE 0, m |-> IF Has(e, "m") THEN e.m ELSE 1]
Step(e) ==
  /\ e.ev = "Grid"
  /\ CASE e.mode = "sde" -> SDE(R(e), e.delta, A(e))
       [] e.mode = "sne" -> SNE(R(e), e.number, A(e))
       [] e.mode = "sdn" -> SDN(R(e), A(e))
       [] e.mode = "sim" -> SIM(R(e), A(e))
       [] e.mode = "control" -> CONTROL(R(e), A(e)) /\ ((e.ok /\ e.m > 0) => (e.vals = e.m * e.n /\ e.set))
       [] OTHER -> FALSE
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_l
=============================================================================
