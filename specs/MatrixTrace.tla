---------------------------- MODULE MatrixTrace ----------------------------
(* Histories of matrix handlers in the real code. Every event shows the whole *)
(* matrix: the entries stored (cells) with their values.                      *)
EXTENDS Matrix, TraceBase
Shown(e, m) == /\ { e.cells[k].at : k \in 1..Len(e.cells) } = DOMAIN m
               /\ Len(e.cells) = Cardinality(DOMAIN m)
               /\ \A k \in 1..Len(e.cells) : FClose(e.cells[k].value, m[e.cells[k].at], "1e-300", "1e-12")
Free == mode = "closed"
Step(e) ==
  \/ e.ev = "Empty" /\ Forget(e.rows, e.cols) /\ Shown(e, mat')
  \/ e.ev = "Open" /\ e.kind = "build" /\ e.ok = (mat = <<>>)
     /\ (IF e.ok THEN Build(e.flip) ELSE UNCHANGED mvars) /\ Shown(e, mat')
  \/ e.ev = "Open" /\ e.kind = "refill" /\ e.ok /\ Refill(e.flip) /\ Shown(e, mat')
  \/ e.ev = "Add" /\ mode # "closed" /\ e.ok = Inside(e.i, e.j, flip)
     /\ (IF e.ok THEN Contribute(e.i, e.j, e.v) ELSE UNCHANGED mvars) /\ Shown(e, mat')
  \/ e.ev = "Set" /\ Finish /\ Shown(e, mat')
Init == Blank(0, 0) /\ TraceStart
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_<<mvars, l>>
=============================================================================
