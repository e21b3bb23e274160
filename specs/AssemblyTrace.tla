--------------------------- MODULE AssemblyTrace ---------------------------
(* Numbering of the variables of networks built from JSON. *)
EXTENDS NetTrace
Laid(e) ==
  LET n == NumOf(e) N == SetOf(e.given) IN
  /\ { e.comps[k].id : k \in 1..Len(e.comps) } = Ids(N) /\ Len(e.comps) = Cardinality(N)
  /\ Numbered(N, n, "s", e.offset[1], e.totals[1][2]) /\ e.totals[1][1] = e.offset[1]
  /\ Numbered(N, n, "c", e.offset[2], e.totals[2][2]) /\ e.totals[2][1] = e.offset[2]
  /\ Numbered(N, n, "q", e.offset[3], e.totals[3][2]) /\ e.totals[3][1] = e.offset[3]
Step(e) == /\ e.ev = "Net" /\ Laid(e)
           /\ \/ FirstBuild(e)
              \/ LaterBuild(e) /\ (e.offset = <<0, 0, 0>> => NumOf(e) = num)
Init == NInit
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_nvars
=============================================================================
