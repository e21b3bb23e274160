------------------------------ MODULE NetTrace ------------------------------
(* What the trace specifications of whole networks share. *)
EXTENDS Network, TraceBase
VARIABLES net, num, sid
nvars == <<net, num, sid, l>>
NInit == net = {} /\ num = <<>> /\ sid = -1 /\ TraceStart
SetOf(s) == { s[k] : k \in 1..Len(s) }
NumOf(e) == [i \in { e.comps[k].id : k \in 1..Len(e.comps) } |->
              LET k == CHOOSE j \in 1..Len(e.comps) : e.comps[j].id = i IN [s |-> e.comps[k].s, c |-> e.comps[k].c, q |-> e.comps[k].q]]
FirstBuild(e) == e.ok /\ e.s # sid /\ sid' = e.s /\ net' = SetOf(e.given) /\ num' = NumOf(e)
LaterBuild(e) == e.ok /\ e.s = sid /\ UNCHANGED <<net, num, sid>>
Same == UNCHANGED <<net, num, sid>>
RowsOf(e, id) == LET k == CHOOSE j \in 1..Len(e.rows) : e.rows[j].id = id IN SetOf(e.rows[k].r)
=============================================================================
