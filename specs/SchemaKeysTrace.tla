--------------------------- MODULE SchemaKeysTrace ---------------------------
(* The real commands, called as from the command line: the directory is shown *)
(* before and after. "rest" are all other files.                              *)
EXTENDS SchemaKeys, TraceBase
SetOf(q) == { q[i] : i \in 1..Len(q) }
SchemaFile(k) == k \o "_schema.json"
Shown(e) == [k \in DOMAIN e.after |-> e.after[k]]
Keeps(e) == \A p \in DOMAIN e.rest : p \in DOMAIN e.rest_after /\ e.rest_after[p] = e.rest[p]
Insert(e) ==
  /\ files = e.before
  /\ Inserted(SetOf(e.have), e.before, e.after, e.status = 0)
  /\ IF e.faults = 0 THEN e.rest_after = e.rest /\ (e.status = 0 <=> e.home /\ InsertFine(SetOf(e.have), e.before))
     ELSE Keeps(e) /\ e.status # 0
  /\ UNCHANGED <<schemas, strange>>
(* generating: exactly the schema files are new or replaced *)
SchemaFiles(e) == { SchemaFile(k) : k \in DOMAIN files }
Generating(e) ==
  /\ files = e.before /\ e.after = e.before
  /\ IF e.strange \/ ~e.readable THEN e.status # 0 /\ e.rest_after = e.rest /\ e.have_after = e.have
     ELSE IF e.faults > 0 THEN e.status # 0 /\ Keeps(e)
     ELSE e.status = 0 /\ e.rest_after = e.rest /\ SetOf(e.have_after) = DOMAIN files /\ e.sound
  /\ schemas' = SetOf(e.have_after) /\ UNCHANGED strange
Step(e) ==
  \/ e.ev = "Given" /\ files' = e.files /\ schemas' = SetOf(e.have) /\ strange' = e.strange
  \/ e.ev = "Insert" /\ Insert(e) /\ files' = e.after
  \/ e.ev = "Generate" /\ Generating(e) /\ files' = e.after
Init == files = <<>> /\ schemas = {} /\ strange = FALSE /\ todo = {} /\ told = "" /\ own = <<>> /\ TraceStart
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l]) /\ UNCHANGED <<todo, told, own>>
Spec == Init /\ [][Next]_<<skvars, l>>
=============================================================================
