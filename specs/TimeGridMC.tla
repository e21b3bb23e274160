----------------------------- MODULE TimeGridMC -----------------------------
(* All grids over small integer requests: exactly one number of points is the  *)
(* smallest, it is ceil(span/delta)+1, and the constraint times derived from   *)
(* any grid are strictly increasing state times that end at the end.           *)
EXTENDS TimeGrid, FiniteSets
CONSTANTS Max
VARIABLE r
Init == r = [start |-> 0, end |-> 0, delta |-> 0, number |-> -2]
Next == /\ r.number = -2
        /\ r' \in [start : -Max..Max, end : -Max..Max, delta : -1..Max, number : -1..Max]
Spec == Init /\ [][Next]_r
Counts == { n \in 0..(2 * Max + 3) : Smallest(n, Span(r), r.delta) }
Minimal ==
  PossibleSDE(r.start, r.end, r.delta) =>
    /\ Cardinality(Counts) >= 1
    /\ LET c == (r.end - r.start + r.delta - 1) \div r.delta + 1 IN
         /\ c \in Counts
         /\ Counts \subseteq {c, c + 1}
         /\ (c + 1 \in Counts => (r.end - r.start) % r.delta = 0)
ConstraintTimes == r.number = -2 =>
  \A n \in 2..(Max + 2), k \in 1..(Max + 2) :
    LET c == ConstraintIndices(n, k) IN
      /\ Len(c) >= 1 /\ c[Len(c)] = n - 1 /\ c[1] >= 1
      /\ \A i \in 1..(Len(c) - 1) : c[i] < c[i + 1] /\ c[i + 1] - c[i] < 2 * k
=============================================================================
