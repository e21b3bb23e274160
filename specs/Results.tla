------------------------------- MODULE Results -------------------------------
(* What is reported about the components: for each of them a list of entries, *)
(* one per saved time, holding its own part of the state in documented units. *)
EXTENDS GasPower
RClose(a, b) == FClose(a, b, "1e-12", "1e-12")
ReportedStates == PowerNodes \cup ShortEdges \cup {"Pipe", "Gaspowerconnection"}
WithStates(n) == { c \in n : States(c) > 0 }
(* pipes report the pressure in bar and the flow at every grid point, short
   edges at both ends, couplings at their gas end *)
EdgePoints(c) == CASE c.type = "Pipe" -> Points(c) [] c.type = "Gaspowerconnection" -> 1 [] OTHER -> 2
EdgePlace(c, i) == IF c.type = "Pipe" THEN FMul(i - 1, FDiv(c.L, Points(c) - 1)) ELSE FNum(i - 1)
EdgePressure(c, x) == IF c.type = "Pipe" THEN PressureBar(x) ELSE FNum(x)
EdgeReports(num, v, c, t, d) ==
  LET s == StateStart(num, c.id) n == EdgePoints(c) IN
  /\ RClose(d.time, t) /\ Len(d.pressure) = n /\ Len(d.flow) = n
  /\ \A i \in 1..n : /\ RClose(d.pressure[i].x, EdgePlace(c, i)) /\ RClose(d.flow[i].x, EdgePlace(c, i))
                     /\ RClose(d.pressure[i].value, EdgePressure(c, v[s + 2 * i - 1])) /\ RClose(d.flow[i].value, v[s + 2 * i])
Entry(net, num, v, c, t, d) ==
  IF c.type \in PowerNodes THEN Reports(net, num, v, c, t, d, "1e-12") ELSE EdgeReports(num, v, c, t, d)
Listing(out, id) == { k \in 1..Len(out) : out[k].id = id }
ClassName(c) == IF c.cls = "node" THEN "nodes" ELSE "connections"
(* out: sequence of [id, cls, type, data] *)
ListsExactly(out, S) ==
  /\ \A c \in S : Cardinality(Listing(out, c.id)) = 1
  /\ \A k \in 1..Len(out) : \E c \in S : c.id = out[k].id /\ out[k].cls = ClassName(c) /\ out[k].type = c.type
Complete(net, num, times, states, out) ==
  /\ ListsExactly(out, WithStates(net))
  /\ \A c \in WithStates(net) :
       LET r == out[CHOOSE k \in Listing(out, c.id) : TRUE] IN
       /\ Len(r.data) = Len(times)
       /\ \A k \in 1..Len(times) : Entry(net, num, states[k], c, times[k], r.data[k])
(* saved controls: the control values of each controlled component, exactly *)
CompleteControls(net, num, times, all, out) ==
  LET S == { c \in net : Controls(c) > 0 } total == IF Len(times) = 0 THEN 0 ELSE Len(all) \div Len(times) IN
  /\ ListsExactly(out, S)
  /\ \A c \in S :
       LET r == out[CHOOSE k \in Listing(out, c.id) : TRUE] a == num[c.id].c[1] IN
       /\ Len(r.data) = Len(times)
       /\ \A k \in 1..Len(times) :
            /\ FEq(r.data[k].time, times[k]) /\ Len(r.data[k].values) = Controls(c)
            /\ \A i \in 1..Controls(c) : FEq(r.data[k].values[i], all[(k - 1) * total + a + i])

(* ---- saving as a state machine: each call appends one entry per component ---- *)
VARIABLES log, last
rvars == <<log, last>>
Save(S, t, view(_)) ==
  /\ (IF last = <<>> THEN TRUE ELSE last[Len(last)] < t)
  /\ last' = Append(last, t)
  /\ log' = [i \in { c.id : c \in S } |-> Append(IF i \in DOMAIN log THEN log[i] ELSE <<>>, [time |-> t, part |-> view(i)])]
=============================================================================
