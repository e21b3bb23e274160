------------------------------ MODULE DataTrace ------------------------------
(* Initial values, controls and bounds read into real networks. *)
EXTENDS DataFile, NetTrace
Total(e) == IF e.what = "initial" THEN Len(e.after) ELSE Len(e.after) \div Len(e.times)
TimesOf(e) == IF e.what = "initial" THEN <<>> ELSE e.times
Owned(e) == UNION { Part(num, c, e.what, TimesOf(e), Total(e)) : c \in Needs(net, e.what) }
Foreign(e) == { p \in 1..Len(e.after) : p \notin Owned(e) }
Loaded(e) ==
  /\ \A c \in Needs(net, e.what) : Right(num, c, EntryOf(e.given, c.id), e.what, TimesOf(e), Total(e), e.after)
  /\ \A p \in Foreign(e) : e.after[p] = e.before[p]
(* a rejected file may have been written in part, but only in the right places *)
Partly(e) ==
  /\ \A p \in Foreign(e) : e.after[p] = e.before[p]
  /\ \A c \in Needs(net, e.what) :
       LET ps == Places(c, e.what, TimesOf(e)) IN
       \A k \in 1..Len(ps) : \A i \in 1..Width(c, e.what) :
         LET p == Pos(num, c, e.what, Total(e), k, i) IN
         \/ e.after[p] = e.before[p]
         \/ /\ Missing(net, e.what, e.given) = {}
            /\ LET d == EntryOf(e.given, c.id) IN
               Shaped(c, d, e.what) /\ FClose(e.after[p], ValueAt(c, d, e.what, ps[k])[i], "1e-10", "1e-11")
Step(e) ==
  \/ e.ev = "Net" /\ FirstBuild(e)
  \/ /\ e.ev = "Data" /\ Same
     /\ e.ok <=> Acceptable(net, e.what, e.given, TimesOf(e))
     /\ IF e.ok THEN Loaded(e) ELSE Partly(e)
     /\ e.ok => SetOf(e.mentioned) = Strangers(net, e.what, e.given)
Init == NInit /\ given = <<>> /\ vec = <<>> /\ rest = <<>> /\ status = ""
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l]) /\ UNCHANGED dvars
Spec == Init /\ [][Next]_<<nvars, dvars>>
=============================================================================
