------------------------------ MODULE DefaultsTrace ------------------------------
(* Components made by a configured factory, networks given with and without   *)
(* defaults, and the schemas generated for the data files.                    *)
EXTENDS Components, TraceBase
SetOf(s) == { s[i] : i \in 1..Len(s) }
Key(e) == <<e.cls, e.type>>
Step(e) ==
  \/ /\ e.ev = "Factory" /\ Configure(e.defaults)
  \/ /\ e.ev = "Make" /\ e.type \in Types
     /\ LET d == OfType(config, e.type) s == FullS(e.type) IN
        /\ e.ok <=> Buildable(e.entry, d, s)
        /\ e.ok => e.after = Fill(e.entry, d, s) \/ e.after = e.entry
     /\ UNCHANGED fvars
  \* the same network, once written out in full and once with the help of defaults
  \/ /\ e.ev = "Twin" /\ e.ok /\ e.full = e.filled /\ UNCHANGED fvars
  \/ /\ e.ev = "Generate" /\ config' = e.defaults /\ made' = <<>>
     /\ LET foreign == { f \in SetOf(e.before) : f \notin SetOf(e.known) } IN
        IF foreign # {} THEN ~e.ok /\ e.untouched
        ELSE e.ok /\ SetOf(e.after) = SetOf(e.before) \cup SetOf(e.schemas)
  \/ /\ e.ev = "Types"
     /\ SetOf(e.nodes) = ListedIn(e.file) \cap NodeTypes /\ SetOf(e.edges) = ListedIn(e.file) \cap EdgeTypes
     /\ UNCHANGED fvars
  \/ /\ e.ev = "Judge"
     /\ LET d == OfType(config, e.type) IN e.accepted <=> Valid(e.entry, FileS(e.file, e.type, d))
     /\ e.accepted <=> e.grazer
     /\ UNCHANGED fvars
  \* a whole file: of the right outer form or not
  \/ /\ e.ev = "Outer" /\ e.accepted = e.fine /\ UNCHANGED fvars
Init == TraceStart /\ config = Empty /\ made = <<>>
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_<<l, fvars>>
=============================================================================
