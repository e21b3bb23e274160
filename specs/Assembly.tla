------------------------------ MODULE Assembly ------------------------------
(* How a network problem comes into being: components are added, then every  *)
(* component is given its variables, then every component claims its rows of *)
(* the equations.                                                            *)
EXTENDS Network
VARIABLES net, num, next, phase, claims
avars == <<net, num, next, phase, claims>>
Start == net = {} /\ num = <<>> /\ next = [k \in Kinds |-> 0] /\ phase = "build" /\ claims = <<>>
Add(c) == /\ phase = "build" /\ c.id \notin Ids(net)
          /\ c.cls = "edge" => {c.from, c.to} \subseteq Ids(net) /\ FitEdge(net, c)
          /\ net' = net \cup {c} /\ UNCHANGED <<num, next, phase, claims>>
Close == phase = "build" /\ WellFormed(net) /\ net # {} /\ phase' = "number" /\ UNCHANGED <<net, num, next, claims>>
(* any order of the components will do *)
Number(id) == /\ phase = "number" /\ id \in Ids(net) /\ id \notin DOMAIN num
              /\ LET c == By(net, id) IN
                 /\ num' = [i \in DOMAIN num \cup {id} |-> IF i = id THEN [k \in Kinds |-> <<next[k], next[k] + Size(c, k)>>] ELSE num[i]]
                 /\ next' = [k \in Kinds |-> next[k] + Size(c, k)]
              /\ phase' = IF DOMAIN num' = Ids(net) THEN "claim" ELSE phase
              /\ UNCHANGED <<net, claims>>
Claim(id) == /\ phase = "claim" /\ id \in Ids(net) /\ id \notin DOMAIN claims
             /\ claims' = [i \in DOMAIN claims \cup {id} |-> IF i = id THEN Rows(net, num, By(net, id)) ELSE claims[i]]
             /\ phase' = IF DOMAIN claims' = Ids(net) THEN "done" ELSE phase
             /\ UNCHANGED <<net, num, next>>
(* what must follow *)
Layout == phase \in {"claim", "done"} => \A k \in Kinds : Numbered(net, num, k, 0, next[k])
NoOverlap == \A i, j \in DOMAIN claims : i # j => claims[i] \cap claims[j] = {}
Square == phase = "done" => UNION { claims[i] : i \in DOMAIN claims } = 0..(next["s"] - 1)
OwnSize == \A i \in DOMAIN claims : By(net, i).type \in PowerNodes => Cardinality(claims[i]) = States(By(net, i))
=============================================================================
