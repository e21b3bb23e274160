---------------------------- MODULE PowerNetMC ----------------------------
(* Power is conserved by the sums of PowerNet: what all nodes feed in is what *)
(* shunts and lines consume, and turning a line around changes nothing.       *)
EXTENDS PowerNet, TLC
CONSTANTS Lay, Angles, Volts
VARIABLES edges, v
Names == {"a", "b", "c"}
Start(i) == CASE i = "a" -> 0 [] i = "b" -> 2 [] OTHER -> 4
num == [i \in Names |-> [s |-> <<Start(i), Start(i) + 2>>]]
Node(i) == [id |-> i, type |-> "PQnode", cls |-> "node", from |-> "", to |-> "", G |-> (IF i = "a" THEN "0.5" ELSE "0"), B |-> "-3"]
Line(k, p, g) == [id |-> k, type |-> "Transmissionline", cls |-> "edge", from |-> p[1], to |-> p[2], G |-> g, B |-> "7.5"]
Nodes == { Node(i) : i \in Names }
net == Nodes \cup edges
Turn(e) == [e EXCEPT !.from = e.to, !.to = e.from]
Init == edges = {} /\ v = <<1, 0, 1, 0, 1, 0>>
AddLine == /\ Cardinality(edges) < Lay
           /\ \E p \in Names \X Names, g \in {"0", "-2"} : p[1] # p[2] /\ edges' = edges \cup {Line(<<"x", "y", "z">>[Cardinality(edges) + 1], p, g)}
           /\ UNCHANGED v
SetState == v = <<1, 0, 1, 0, 1, 0>> /\ \E x \in [1..3 -> Volts], y \in [2..3 -> Angles] :
              v' = <<x[1], 0, x[2], y[2], x[3], y[3]>> /\ UNCHANGED edges
TurnLine == \E e \in edges : edges' = (edges \ {e}) \cup {Turn(e)} /\ UNCHANGED v
Next == AddLine \/ SetState \/ TurnLine
Spec == Init /\ [][Next]_<<edges, v>>
PSum(N) == FSum([k \in 1..3 |-> FSum(PTerms(N, num, v, Node(<<"a", "b", "c">>[k])))])
Loss == LET es == Seq2(edges) IN
        FAdd(FMul("0.5", FMul(v[1], v[1])),
             FSum([k \in 1..Len(es) |-> FMul(2, FMul(es[k].G, FMul(FMul(Volt(num, v, es[k].from), Volt(num, v, es[k].to)),
                                                       FCos(FSub(Phi(num, v, es[k].from), Phi(num, v, es[k].to))))))]))
Conserved == FClose(PSum(net), Loss, "1e-12", "0")
Orientation == \A e \in edges : LET N == (net \ {e}) \cup {Turn(e)} IN \A n \in Nodes :
   /\ FClose(FSum(PTerms(net, num, v, n)), FSum(PTerms(N, num, v, n)), "1e-12", "0")
   /\ FClose(FSum(QTerms(net, num, v, n)), FSum(QTerms(N, num, v, n)), "1e-12", "0")
=============================================================================
