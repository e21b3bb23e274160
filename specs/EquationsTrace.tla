--------------------------- MODULE EquationsTrace ---------------------------
(* The equations of a network: one component per row, all rows, no memory. *)
EXTENDS NetTrace
Complete(e) ==
  LET R == [i \in { e.rows[k].id : k \in 1..Len(e.rows) } |-> RowsOf(e, i)] IN
  /\ \A i, j \in DOMAIN R : i # j => R[i] \cap R[j] = {}
  /\ UNION { R[i] : i \in DOMAIN R } = 0..(Len(e.full[1]) - 1)
  /\ \A k \in 2..Len(e.full) : e.full[k] = e.full[1]
  /\ \A k \in 1..Len(e.full[1]) : FFinite(e.full[1][k])
Square(e) == LET f(c) == States(c) IN
             LET RECURSIVE sum(_)
                 sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f(x) + sum(S \ {x})
             IN Len(e.full[1]) = sum(net)
Step(e) == \/ e.ev = "Net" /\ FirstBuild(e)
           \/ e.ev = "Eval" /\ Complete(e) /\ Square(e) /\ Same
Init == NInit
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_nvars
=============================================================================
