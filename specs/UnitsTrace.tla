----------------------------- MODULE UnitsTrace -----------------------------
(* Measurements converted by the real code. *)
EXTENDS Units, UnitTables, TraceBase
VARIABLES seen
Tiny(x) == FLt(FAbs(x), "1e-300")
Convert(e) ==
  LET m == Measures[e.measure] R == IF e.shape = "good" THEN Readings(m, Chars(e.unit)) ELSE {} IN
  \* a number too large for a double is refused; one too small may be
  /\ e.ok => R # {} /\ \A r \in R : FFinite(r.num)
  /\ (R # {} /\ \A r \in R : FFinite(r.num) /\ ~Tiny(r.num)) => e.ok
  /\ e.ok => \A r \in R : FClose(e.got, Denoted(m, e.value, r), Slack(m, e.value, r), "0")
Step(e) == e.ev = "Convert" /\ Convert(e) /\ UNCHANGED uvars /\ seen' = seen + 1
Init == text = <<>> /\ rest = <<>> /\ found = <<>> /\ phase = "idle" /\ seen = 0 /\ TraceStart
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_<<uvars, seen, l>>
=============================================================================
