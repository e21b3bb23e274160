-------------------------------- MODULE Graph --------------------------------
(* Nodes and edges that know each other. nodes: ids; edges: records [id, from,*)
(* to]; starts[n][e], ends[n][e]: how often node n lists edge e.              *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES nodes, edges, starts, ends
gvars == <<nodes, edges, starts, ends>>
EdgeIds == { e.id : e \in edges }
Edge(i) == CHOOSE e \in edges : e.id = i
Count(f, n, e) == IF n \in DOMAIN f /\ e \in DOMAIN f[n] THEN f[n][e] ELSE 0
Plus(f, n, e, d) == [m \in nodes |-> [x \in EdgeIds \cup DOMAIN f[m] \cup {e} |-> Count(f, m, x) + (IF m = n /\ x = e THEN d ELSE 0)]]
Empty == nodes = {} /\ edges = {} /\ starts = <<>> /\ ends = <<>>
NewNode(n) == /\ n \notin nodes \cup EdgeIds /\ edges = {}
              /\ nodes' = nodes \cup {n}
              /\ starts' = [m \in nodes' |-> <<>>] /\ ends' = [m \in nodes' |-> <<>>] /\ UNCHANGED edges
Joinable(a, b) == a \in nodes /\ b \in nodes /\ a # b
NewEdge(i, a, b) == /\ i \notin nodes \cup EdgeIds /\ Joinable(a, b)
                    /\ edges' = edges \cup {[id |-> i, from |-> a, to |-> b]}
                    /\ starts' = Plus(starts, a, i, 1) /\ ends' = Plus(ends, b, i, 1) /\ UNCHANGED nodes
(* an edge that cannot be is refused, and nobody lists it *)
RefuseEdge(i, a, b) == ~Joinable(a, b) /\ UNCHANGED gvars
(* attaching and removing, and what the call answers *)
AttachStart(n, i, ret) == /\ n \in nodes /\ i \in EdgeIds /\ ret = (Edge(i).from = n)
                          /\ starts' = IF ret THEN Plus(starts, n, i, 1) ELSE starts
                          /\ UNCHANGED <<nodes, edges, ends>>
AttachEnd(n, i, ret) == /\ n \in nodes /\ i \in EdgeIds /\ ret = (Edge(i).to = n)
                        /\ ends' = IF ret THEN Plus(ends, n, i, 1) ELSE ends
                        /\ UNCHANGED <<nodes, edges, starts>>
Remove(n, i, ret) == /\ n \in nodes /\ i \in EdgeIds
                     /\ ret = (Count(starts, n, i) + Count(ends, n, i) > 0)
                     /\ starts' = IF Count(starts, n, i) > 0 THEN Plus(starts, n, i, -1) ELSE starts
                     /\ ends' = IF Count(starts, n, i) = 0 /\ ret THEN Plus(ends, n, i, -1) ELSE ends
                     /\ UNCHANGED <<nodes, edges>>
(* a network may be made of the nodes in keep (and all edges) *)
Sound(keep) == \A e \in edges : /\ e.from \in keep /\ e.to \in keep
                                /\ Count(starts, e.from, e.id) > 0 /\ Count(ends, e.to, e.id) > 0
(* nobody lists an edge that is not theirs *)
Own == \A n \in nodes, e \in edges : /\ Count(starts, n, e.id) > 0 => e.from = n
                                     /\ Count(ends, n, e.id) > 0 => e.to = n
Exact == \A n \in nodes, e \in edges : /\ Count(starts, n, e.id) = (IF e.from = n THEN 1 ELSE 0)
                                       /\ Count(ends, n, e.id) = (IF e.to = n THEN 1 ELSE 0)
(* ---- lookups ---- *)
Connecting(a, b) == { e.id : e \in { x \in edges : x.from = a /\ x.to = b } }
Between(a, b) == Connecting(a, b) \cup Connecting(b, a) # {}
=============================================================================
