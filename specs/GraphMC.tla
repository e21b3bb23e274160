------------------------------- MODULE GraphMC -------------------------------
EXTENDS Graph, TLC, Json, IOUtils, CSV
CONSTANTS NodeIds, Missing, LineIds, MaxOps, MinEdges
VARIABLES ops
vars == <<gvars, ops>>
Pick(S) == S
PickOne(S) == {RandomElement(S)}
Log(o, a, b, c) == ops' = Append(ops, [op |-> o, a |-> a, b |-> b, c |-> c])
Changes == Cardinality({ k \in 1..Len(ops) : ops[k].op \in {"start", "end", "remove", "join", "refuse"} })
Init == Empty /\ ops = <<>>
AddNode == \E n \in NodeIds : NewNode(n) /\ Log("node", n, "", "")
AddEdge == Changes = 0 /\ \E i \in LineIds, a \in Pick(nodes), b \in Pick(nodes) : NewEdge(i, a, b) /\ Log("edge", i, a, b)
May == Changes < MaxOps /\ Cardinality(edges) >= MinEdges
Start == May /\ \E n \in Pick(nodes), i \in EdgeIds, r \in BOOLEAN : AttachStart(n, i, r) /\ Log("start", n, i, "")
End == May /\ \E n \in Pick(nodes), i \in EdgeIds, r \in BOOLEAN : AttachEnd(n, i, r) /\ Log("end", n, i, "")
Take == May /\ \E n \in Pick(nodes), i \in EdgeIds, r \in BOOLEAN : Remove(n, i, r) /\ Log("remove", n, i, "")
LateEdge == May /\ Changes > 0 /\ \E i \in LineIds, a \in Pick(nodes), b \in Pick(nodes) : NewEdge(i, a, b) /\ Log("join", i, a, b)
Refuse == May /\ \E i \in LineIds \ EdgeIds, a \in Pick(nodes \cup Missing), b \in Pick(nodes \cup Missing) : RefuseEdge(i, a, b) /\ Log("refuse", i, a, b)
Next == LateEdge \/ Refuse \/ AddNode \/ AddEdge \/ Start \/ End \/ Take
Spec == Init /\ [][Next]_vars
OwnOnly == Own
Fresh == Changes = 0 => Exact /\ Sound(nodes)
NeverNegative == \A n \in nodes, i \in EdgeIds : Count(starts, n, i) >= 0 /\ Count(ends, n, i) >= 0
(* removing undoes attaching *)
Undo == \A n \in nodes, i \in EdgeIds :
  Edge(i).from = n => LET up == Plus(starts, n, i, 1) IN \A m \in nodes, x \in EdgeIds :
     (IF Count(up, n, i) > 0 THEN Count(up, m, x) - (IF m = n /\ x = i THEN 1 ELSE 0) ELSE -1) = Count(starts, m, x)
Dump == Changes = MaxOps => CSVWrite("%1$s", <<ToJson([ops |-> ops])>>, IOEnv.GENOUT)
=============================================================================
