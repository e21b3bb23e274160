---------------------------- MODULE GasEdgeTrace ----------------------------
(* Gas edges: the residuals of their interior rows, simulated states, the     *)
(* balance law on its own, conversion of data and results.                    *)
EXTENDS GasNet, NetTrace
RTOL == "2e-13"
Edges == { c \in net : c.type \in ShortEdges \cup {"Pipe"} }
Zero(n) == [k \in 1..n |-> "0"]
(* the residual of a solution is only as small as the solver's tolerance *)
Solved(e, k) == \A c \in Edges :
  LET s == StateStart(num, c.id) tol == FAdd(FMul(2, e.tol), "1e-9") IN
  IF c.type # "Pipe" THEN ShortHolds(num, e.states[k], e.controls[k], c, tol)
  ELSE \A j \in 0..(Points(c) - 2) : \A i \in 1..2 :
         LET terms == CellTerms(c.D, c.k, Dx(c), FSub(e.times[k], e.times[k - 1]),
                                StateAt(e.states[k - 1], s + 2 * j), StateAt(e.states[k - 1], s + 2 * j + 2),
                                StateAt(e.states[k], s + 2 * j), StateAt(e.states[k], s + 2 * j + 2), i) IN
         Small(FSum(terms), FAdd(tol, FMul(RTOL, SumAbs(terms))))
Close(a, b) == FClose(a, b, "1e-12", "1e-12")
(* what is reported about an edge at a state v *)
Reported(c, d, v) ==
  LET s == StateStart(num, c.id)
      n == IF c.type = "Pipe" THEN Points(c) ELSE 2
      x(i) == IF c.type = "Pipe" THEN FMul(i - 1, Dx(c)) ELSE FNum(i - 1)
      p(i) == IF c.type = "Pipe" THEN PressureBar(v[s + 2 * i - 1]) ELSE FNum(v[s + 2 * i - 1]) IN
  /\ Len(d.pressure) = n /\ Len(d.flow) = n
  /\ \A i \in 1..n : /\ Close(d.pressure[i].x, x(i)) /\ Close(d.flow[i].x, x(i))
                     /\ Close(d.pressure[i].value, p(i)) /\ Close(d.flow[i].value, v[s + 2 * i])
ResultOf(e, id) == e.out[CHOOSE k \in 1..Len(e.out) : e.out[k].id = id]
Has1(e, id) == Cardinality({ k \in 1..Len(e.out) : e.out[k].id = id }) = 1
ReportsAll(e) == \A c \in Edges :
  /\ Has1(e, c.id)
  /\ LET r == ResultOf(e, c.id) IN
     /\ Len(r.data) = Len(e.times)
     /\ \A k \in 1..Len(e.times) : Close(r.data[k].time, e.times[k]) /\ Reported(c, r.data[k], e.states[k])
(* initial data in bar, given at points x along the edge *)
InitialOf(c, d, i) ==
  LET x == IF c.type = "Pipe" THEN FMul(i - 1, Dx(c)) ELSE FNum(i - 1)
      xs == [k \in 1..Len(d.data) |-> d.data[k].x] vs == [k \in 1..Len(d.data) |-> d.data[k].values]
      pb == At(xs, vs, x, 1) IN
  <<IF c.type = "Pipe" THEN DensityOfBar(pb) ELSE pb, At(xs, vs, x, 2)>>
DataRight(e) == e.what = "initial" /\ e.ok /\ \A c \in Edges :
  LET d == e.given[CHOOSE k \in 1..Len(e.given) : e.given[k].id = c.id]
      s == StateStart(num, c.id) n == States(c) \div 2 IN
  \A i \in 1..n : FCloseSeq(<<e.after[s + 2 * i - 1], e.after[s + 2 * i]>>, InitialOf(c, d, i), "1e-10", "1e-11")
(* the law on its own, and that conversions are inverse to each other *)
LawRight(e) ==
  LET rho == e.state[1] q == e.state[2] IN
  /\ FCloseSeq(e.flux, Flux(e.D, rho, q), "0", "1e-13")
  /\ FCloseSeq(e.source, Source(e.D, e.k, rho, q), "0", "1e-8")
  /\ FCloseSeq(e.p_qvol, <<Pressure(rho), q>>, "0", "1e-13")
  /\ FCloseSeq(e.bar, <<PressureBar(rho), q>>, "0", "1e-13")
  /\ FCloseSeq(e.back, e.state, "0", "1e-12")
Step(e) ==
  \/ e.ev = "Net" /\ FirstBuild(e)
  \/ /\ e.ev = "Eval" /\ Same
     /\ \A c \in Edges : EdgeRows(num, e.last, e.new, e.control, c, e.t0, e.t1, e.full[1], RTOL)
  \/ e.ev = "Sim" /\ Same /\ (e.ok => \A k \in 2..Len(e.times) : Solved(e, k))
  \/ e.ev = "Results" /\ Same /\ ReportsAll(e)
  \/ e.ev = "Data" /\ Same /\ DataRight(e)
  \/ e.ev = "Law" /\ Same /\ LawRight(e)
Init == NInit
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_nvars
=============================================================================
