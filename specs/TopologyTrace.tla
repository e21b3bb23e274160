---------------------------- MODULE TopologyTrace ----------------------------
(* Merging of files and the graph built from them. *)
EXTENDS Topology, Network, TraceBase
VARIABLES nodes, edges, starts, ends, sid, seen
G == INSTANCE Graph
tvars == <<left, right, out, verdict, nodes, edges, starts, ends, sid, seen, l>>
Quiet == UNCHANGED mvars
AsSet(s) == { s[k] : k \in 1..Len(s) }
Strip(x) == [cls |-> x.cls, type |-> x.type, id |-> x.id, tag |-> x.tag, btag |-> x.btag]
NoNet == nodes' = {} /\ edges' = {} /\ starts' = <<>> /\ ends' = <<>>

Merge(e) ==
  /\ e.ok = Mergeable(e.top, e.bnd)
  /\ e.ok => /\ { Strip(x) : x \in AsSet(e.out) } = Merged(e.top, e.bnd)
             /\ Len(e.out) = Len(e.top)
             /\ \A k \in 1..Len(e.out) : e.out[k].intact
             (* another order of the same entries gives the same description *)
             /\ e.s = sid /\ seen # <<>> => e.out = seen
  /\ sid' = e.s /\ seen' = IF e.ok THEN e.out ELSE <<>>
  /\ NoNet

ClassOf == [nodes |-> GasNodes \cup PowerNodes, connections |-> GasEdges \cup PowerEdges]
NeedsBoundary == { "Source", "Sink", "ConstraintSink", "Pressureboundarynode" } \cup PowerNodes
NodeIds(top) == { x.id : x \in { y \in AsSet(top) : y.cls = "nodes" } }
Buildable(top, bnd) ==
  /\ Mergeable(top, bnd)
  /\ \A x \in AsSet(top) :
       /\ x.type \in ClassOf[x.cls]
       /\ x.type \in NeedsBoundary => Partners(bnd, x) # {}
       /\ x.cls = "connections" => /\ x.from \in NodeIds(top) /\ x.to \in NodeIds(top) /\ x.from # x.to

Times(s, i) == Cardinality({ k \in 1..Len(s) : s[k] = i })
(* the lists of all nodes are those of the specification *)
Shown(e) ==
  /\ Len(e.nodes) = Cardinality(nodes') /\ { x.id : x \in AsSet(e.nodes) } = nodes'
  /\ Len(e.edges) = Cardinality(edges')
  /\ { [id |-> x.id, from |-> x.from, to |-> x.to] : x \in AsSet(e.edges) } = edges'
  /\ \A x \in AsSet(e.nodes) :
       /\ AsSet(x.starts) \cup AsSet(x.ends) \subseteq { y.id : y \in edges' }
       /\ \A y \in edges' : /\ Times(x.starts, y.id) = G!Count(starts', x.id, y.id)
                            /\ Times(x.ends, y.id) = G!Count(ends', x.id, y.id)
Typed(e, top) == \A x \in AsSet(e.nodes) \cup AsSet(e.edges) : \E y \in AsSet(top) : y.id = x.id /\ y.type = x.type
(* a new graph of exactly the components given *)
Fresh(top) ==
  /\ nodes' = NodeIds(top)
  /\ edges' = { [id |-> x.id, from |-> x.from, to |-> x.to] : x \in { y \in AsSet(top) : y.cls = "connections" } }
  /\ starts' = [n \in nodes' |-> [i \in { x.id : x \in { y \in edges' : y.from = n } } |-> 1]]
  /\ ends' = [n \in nodes' |-> [i \in { x.id : x \in { y \in edges' : y.to = n } } |-> 1]]
Lookups(e, N, E) ==
  /\ Len(e.valid) = Cardinality(N) /\ AsSet(e.valid) = N
  /\ \A x \in AsSet(e.found) :
       /\ x.known
       /\ x.node = (IF x.id \in N THEN x.id ELSE "<none>")
       /\ x.edge = (IF x.id \in { y.id : y \in E } THEN x.id ELSE "<none>")
  /\ \A x \in AsSet(e.between) :
       LET there == { y.id : y \in { z \in E : z.from = x.a /\ z.to = x.b } }
           back == { y.id : y \in { z \in E : z.from = x.b /\ z.to = x.a } } IN
       /\ IF there = {} THEN x.edge = "<none>" ELSE x.edge \in there
       /\ x.any = (there \cup back # {})
Graph(e) ==
  /\ e.ok = Buildable(e.top, e.bnd)
  /\ IF e.ok THEN Fresh(e.top) /\ Shown(e) /\ Typed(e, e.top) /\ Lookups(e, nodes', edges') ELSE NoNet
  /\ UNCHANGED <<sid, seen>>
Parts(e) ==
  /\ e.ok = Buildable(e.top, e.bnd)
  /\ IF e.ok THEN Fresh(e.top) /\ Shown(e) /\ Typed(e, e.top) ELSE NoNet
  /\ UNCHANGED <<sid, seen>>
Change(e) ==
  /\ CASE e.op = "start" -> G!AttachStart(e.a, e.b, e.ret)
       [] e.op = "end" -> G!AttachEnd(e.a, e.b, e.ret)
       [] OTHER -> G!Remove(e.a, e.b, e.ret)
  /\ Shown(e) /\ UNCHANGED <<sid, seen>>
Join(e) ==
  /\ IF e.ok THEN G!NewEdge(e.a, e.b, e.c) ELSE G!RefuseEdge(e.a, e.b, e.c)
  /\ Shown(e) /\ UNCHANGED <<sid, seen>>
Net(e) ==
  /\ AsSet(e.keep) \subseteq nodes
  /\ e.ok = G!Sound(AsSet(e.keep))
  /\ e.ok => Lookups(e, AsSet(e.keep), edges)
  /\ NoNet /\ UNCHANGED <<sid, seen>>
Step(e) == /\ CASE e.ev = "Merge" -> Merge(e) [] e.ev = "Graph" -> Graph(e) [] e.ev = "Parts" -> Parts(e)
                [] e.ev = "Change" -> Change(e) [] e.ev = "Join" -> Join(e) [] e.ev = "Net" -> Net(e) [] OTHER -> FALSE
           /\ Quiet
Init == /\ left = {} /\ right = {} /\ out = {} /\ verdict = "start"
        /\ nodes = {} /\ edges = {} /\ starts = <<>> /\ ends = <<>> /\ sid = -1 /\ seen = <<>> /\ TraceStart
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_tvars
=============================================================================
