----------------------------- MODULE DerivTrace -----------------------------
(* Derivatives of networks and of the balance law. *)
EXTENDS Derivative, NetTrace
RTOL == "1e-8"
ULPS == "64"
(* a part of the equations, whose other terms have the size they have by the new state *)
EqPart(d, x, e) ==
  LET rows == Len(e.new) at(i) == IF rows = 0 THEN "0" ELSE RowSize(e.parts.d_new.M, i, e.new, "0") IN
  d.rows = rows /\ d.cols = Len(x) /\ IsDerivativeAmong(d, x, rows, RTOL, ULPS, at) /\ OneMatrix(d)
Part(d, x, rows) == d.rows = rows /\ d.cols = Len(x) /\ IsDerivative(d, x, rows, RTOL, ULPS) /\ OneMatrix(d)
Columns(e, n) == [j \in 1..n |-> e[j]]
LawPart(M, e, p, x) ==
  IsDerivative([M |-> M, h |-> e.h, p2 |-> e[p \o "p2"], p1 |-> e[p \o "p1"], m1 |-> e[p \o "m1"], m2 |-> e[p \o "m2"]], x, 2, RTOL, ULPS)
Step(e) ==
  \/ e.ev = "Net" /\ FirstBuild(e)
  \/ /\ e.ev = "Deriv" /\ Same
     /\ LET p == e.parts ns == Len(e.new) IN
        /\ Part(p.d_new, e.new, ns) /\ EqPart(p.d_last, e.last, e) /\ EqPart(p.d_control, e.control, e)
        /\ Part(p.cost_new, e.new, 1) /\ Part(p.cost_control, e.control, 1)
        /\ Part(p.pen_new, e.new, 1) /\ Part(p.pen_control, e.control, 1)
        /\ LET nq == Cardinality({ c \in net : c.type \in Constrained }) IN
           nq > 0 => Part(p.con_new, e.new, nq) /\ Part(p.con_control, e.control, nq)
  \/ e.ev = "Law" /\ Same /\ e.smooth /\ LawPart(e.dflux, e, "f", e.state) /\ LawPart(e.dsource, e, "s", e.state)
Init == NInit
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_nvars
=============================================================================
