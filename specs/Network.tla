------------------------------ MODULE Network ------------------------------
(* Networks of typed nodes and edges and how grazer lays their variables out. *)
(* A component is a record [id, type, cls, from, to, L, D, k, dx, G, B, ga,   *)
(* pa, pts, vals]; cls is "node" or "edge", lengths are in metres, pts/vals   *)
(* are the boundary values over time. A network is a set of components.       *)
EXTENDS Integers, Sequences, FiniteSets, Flt
FlowNodes  == {"Source", "Sink", "ConstraintSink", "Innode"}
GasNodes   == FlowNodes \cup {"Pressureboundarynode"}
PowerNodes == {"PQnode", "PVnode", "Vphinode", "StochasticPQnode", "ExternalPowerplant"}
ShortEdges == {"Shortpipe", "Compressorstation", "Controlvalve"}
GasEdges   == ShortEdges \cup {"Pipe", "Gaspowerconnection"}
PowerEdges == {"Transmissionline"}
Types == GasNodes \cup PowerNodes \cup GasEdges \cup PowerEdges
Controlled == {"Compressorstation", "Controlvalve"}
Constrained == {"ConstraintSink"}

(* the spatial grid of a pipe: equidistant, no coarser than requested, with
   the smallest number of intervals *)
Points(c) == FCeil(FDiv(c.L, c.dx)) + 1
States(c) == CASE c.type = "Pipe" -> 2 * Points(c)
               [] c.type \in ShortEdges -> 4
               [] c.type \in PowerNodes \cup {"Gaspowerconnection"} -> 2
               [] OTHER -> 0
Controls(c) == IF c.type \in Controlled THEN 1 ELSE 0
Constraints(c) == IF c.type \in Constrained THEN 1 ELSE 0
Size(c, kind) == CASE kind = "s" -> States(c) [] kind = "c" -> Controls(c) [] OTHER -> Constraints(c)

By(net, id) == CHOOSE c \in net : c.id = id
Ids(net) == { c.id : c \in net }
(* attached gas edge ends: <<edge, direction>>, 1 where the edge starts *)
Ends(net, n) == { <<e.id, 1>> : e \in { x \in net : x.type \in GasEdges /\ x.from = n.id } }
                \cup { <<e.id, -1>> : e \in { x \in net : x.type \in GasEdges /\ x.type # "Gaspowerconnection" /\ x.to = n.id } }
Lines(net, n) == { e \in net : e.type \in PowerEdges /\ (e.from = n.id \/ e.to = n.id) }
Other(net, e, n) == By(net, IF e.from = n.id THEN e.to ELSE e.from)
(* edges connect different nodes of their kind, no gas node is left without an
   edge, and a power plant is supplied by exactly one connection *)
FitEdge(net, e) ==
  /\ e.from \in Ids(net) /\ e.to \in Ids(net) /\ e.from # e.to
  /\ LET a == By(net, e.from).type b == By(net, e.to).type IN
     CASE e.type \in PowerEdges -> a \in PowerNodes /\ b \in PowerNodes
       [] e.type = "Gaspowerconnection" -> a \in GasNodes /\ b = "ExternalPowerplant"
       [] OTHER -> a \in GasNodes /\ b \in GasNodes
WellFormed(net) ==
  /\ \A e \in net : e.cls = "edge" => FitEdge(net, e)
  /\ \A n \in net : n.type \in GasNodes => Ends(net, n) # {}
  /\ \A n \in net : n.type = "ExternalPowerplant" =>
       Cardinality({ e \in net : e.type = "Gaspowerconnection" /\ e.to = n.id }) = 1

(* ---- numbering: num[id] = [s, c, q], each a half-open range <<a, b>> ---- *)
Kinds == {"s", "c", "q"}
(* the components own disjoint contiguous ranges of the right size that
   together cover first..after-1 *)
Numbered(net, num, kind, first, after) ==
  LET own == { c \in net : Size(c, kind) > 0 }
      rows(c) == num[c.id][kind][1]..(num[c.id][kind][2] - 1) IN
  /\ \A c \in own : num[c.id][kind][2] - num[c.id][kind][1] = Size(c, kind)
  /\ \A c, d \in own : c # d => rows(c) \cap rows(d) = {}
  /\ UNION { rows(c) : c \in own } = first..(after - 1)
  /\ after >= first

(* ---- equations: each row belongs to one component ---- *)
StateStart(num, id) == num[id].s[1]
StateAfter(num, id) == num[id].s[2]
EndRow(num, end) == IF end[2] = 1 THEN StateStart(num, end[1]) ELSE StateAfter(num, end[1]) - 1
(* index of the pressure (or density) at an end of an edge *)
EndState(num, end) == IF end[2] = 1 THEN StateStart(num, end[1]) ELSE StateAfter(num, end[1]) - 2
Rows(net, num, c) ==
  CASE c.type \in GasNodes -> { EndRow(num, e) : e \in Ends(net, c) }
    [] c.type \in {"Pipe"} \cup ShortEdges -> (StateStart(num, c.id) + 1)..(StateAfter(num, c.id) - 2)
    [] c.type = "Gaspowerconnection" -> {StateStart(num, c.id) + 1}
    [] c.type \in PowerNodes -> StateStart(num, c.id)..(StateAfter(num, c.id) - 1)
    [] OTHER -> {}

(* piecewise linear boundary values *)
At(pts, vals, t, k) ==
  LET n == Len(pts)
      i == CHOOSE j \in 1..n : FLe(t, pts[j]) /\ \A m \in 1..(j - 1) : FLt(pts[m], t)
  IN IF FLe(t, pts[1]) THEN FNum(vals[1][k])
     ELSE IF FLe(pts[n], t) THEN FNum(vals[n][k])
     ELSE LET lam == FDiv(FSub(t, pts[i - 1]), FSub(pts[i], pts[i - 1])) IN
          FAdd(FMul(FSub(1, lam), vals[i - 1][k]), FMul(lam, vals[i][k]))
=============================================================================
