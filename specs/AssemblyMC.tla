----------------------------- MODULE AssemblyMC -----------------------------
EXTENDS Assembly, TLC, Json, CSV, IOUtils
CONSTANTS MaxNodes, MaxEdges, NodeTypes, EdgeTypes
NodeIds == {"a", "b", "c", "d", "e"}
NodeNames == <<"b", "a", "d", "c", "e">>
EdgeNames == <<"y", "x", "w", "v", "u", "t">>
Nodes == { c \in net : c.cls = "node" }
Edges == { c \in net : c.cls = "edge" }
Pick(S) == S
PickOne(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
AddNode == /\ phase = "build" /\ Cardinality(Nodes) < MaxNodes /\ Edges = {}
           /\ \E t \in Pick(NodeTypes) :
                Add([id |-> NodeNames[Cardinality(Nodes) + 1], type |-> t, cls |-> "node", from |-> "", to |-> "", L |-> 0, dx |-> 1])
(* only edges that fit are tried *)
AddEdge == /\ phase = "build" /\ Cardinality(Edges) < MaxEdges
           /\ \E t \in Pick(EdgeTypes), n \in Pick({1, 2, 3}) :
              \E p \in Pick({ q \in Ids(Nodes) \X Ids(Nodes) : FitEdge(net, [type |-> t, from |-> q[1], to |-> q[2]]) }) :
                Add([id |-> EdgeNames[Cardinality(Edges) + 1], type |-> t, cls |-> "edge", from |-> p[1], to |-> p[2],
                     L |-> (IF t = "Pipe" THEN 2 * n - 1 ELSE 1), dx |-> 2])
(* in the model the order of numbering is free, the order of claims is not *)
NumberAny == \E id \in Ids(net) : Number(id)
ClaimNext == phase = "claim" /\ LET rest == Ids(net) \ DOMAIN claims IN Claim(CHOOSE id \in rest : TRUE)
Done == phase = "done" /\ UNCHANGED avars
Init == Start
Next == AddNode \/ AddEdge \/ Close \/ NumberAny \/ ClaimNext \/ Done
Spec == Init /\ [][Next]_avars
(* behaviours handed to the real code: the finished networks *)
Dump == phase = "done" => CSVWrite("%1$s", <<ToJson(net)>>, IOEnv.GENOUT)
=============================================================================
