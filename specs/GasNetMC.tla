------------------------------ MODULE GasNetMC ------------------------------
(* Small gas networks of short edges with integer pressures and flows: the   *)
(* admissible sets of rows vanish exactly where the junction conditions hold, *)
(* and where all nodes and edges are satisfied, gas is conserved globally.    *)
EXTENDS GasNet, TLC
CONSTANTS Lay, Vals
VARIABLES edges, v, rows
Names == {"a", "b", "c"}
Type(i) == CASE i = "a" -> "Pressureboundarynode" [] i = "b" -> "Source" [] OTHER -> "Sink"
Node(i) == [id |-> i, type |-> Type(i), cls |-> "node", from |-> "", to |-> "", pts |-> <<0>>, vals |-> <<<<1>>>>]
Short(k, p) == [id |-> k, type |-> "Shortpipe", cls |-> "edge", from |-> p[1], to |-> p[2]]
EdgeNames == <<"x", "y", "z">>
net == { Node(i) : i \in Names } \cup edges
num == [i \in {"x", "y", "z"} |-> LET s == CASE i = "x" -> 0 [] i = "y" -> 4 [] OTHER -> 8 IN [s |-> <<s, s + 4>>]]
N == 4 * Cardinality(edges)
Init == edges = {} /\ v = <<>> /\ rows = <<>>
AddEdge == /\ v = <<>> /\ Cardinality(edges) < Lay
           /\ \E p \in Names \X Names : p[1] # p[2] /\ edges' = edges \cup {Short(EdgeNames[Cardinality(edges) + 1], p)}
           /\ UNCHANGED <<v, rows>>
Flow == v = <<>> /\ edges # {} /\ \E x \in [1..N -> Vals] : v' = x /\ UNCHANGED <<edges, rows>>
(* one choice of rows for node b or c: differences along a chain and a balance *)
Chains(E) == { f \in [1..Cardinality(E) -> E] : \A i, j \in DOMAIN f : i # j => f[i] # f[j] }
Arrange == /\ v # <<>> /\ rows = <<>>
           /\ \E i \in {"b", "c"} : Ends(net, Node(i)) # {} /\ \E f \in Chains(Ends(net, Node(i))), s \in {1, -1} :
                rows' = <<i, [k \in 1..Len(f) |-> IF k = Len(f) THEN FMul(s, Balance(net, num, v, Node(i), 0))
                                ELSE FMul(s, FSub(EndPressure(net, num, v, f[k]), EndPressure(net, num, v, f[k + 1])))]>>
           /\ UNCHANGED <<edges, v>>
Next == AddEdge \/ Flow \/ Arrange
Spec == Init /\ [][Next]_<<edges, v, rows>>
(* such rows are admitted, and vanish exactly where the conditions hold *)
Admitted == rows # <<>> =>
  LET n == Node(rows[1]) R == 0..(Len(rows[2]) - 1) IN
  /\ NodeRows(net, num, v, n, 0, rows[2], R, "1e-12")
  /\ (\A k \in DOMAIN rows[2] : FEq(rows[2][k], 0)) <=> JunctionHolds(net, num, v, n, 0, "1e-12")
(* all-zero rows are admitted only where the conditions hold *)
Sound == v # <<>> => \A i \in {"b", "c"} : Ends(net, Node(i)) # {} =>
  (NodeRows(net, num, v, Node(i), 0, [k \in 1..Cardinality(Ends(net, Node(i))) |-> 0], 0..(Cardinality(Ends(net, Node(i))) - 1), "1e-12")
    => JunctionHolds(net, num, v, Node(i), 0, "1e-12"))
(* at a solution what the pressure node feeds in makes up for sources and sinks *)
Conserved == v # <<>> =>
  ((/\ \A e \in edges : ShortHolds(num, v, <<>>, e, "1e-12")
    /\ \A i \in {"b", "c"} : Ends(net, Node(i)) # {} => JunctionHolds(net, num, v, Node(i), 0, "1e-12"))
   => LET f(e) == FMul(e[2], EndFlow(num, v, e))
          total == FAdd(SetSum(Ends(net, Node("a")), f), FSum([k \in 1..2 |-> LET i == <<"b", "c">>[k] IN
                       IF Ends(net, Node(i)) = {} THEN 0 ELSE Inflow(Node(i), 0)])) IN FEq(total, 0))
=============================================================================
