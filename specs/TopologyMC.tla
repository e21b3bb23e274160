----------------------------- MODULE TopologyMC -----------------------------
(* All pairs of small files: the walk ends with exactly the declared result. *)
EXTENDS Topology, TLC, Json, IOUtils, CSV
CONSTANTS Ids, Types, MaxTop, MaxBnd
VARIABLES top, bnd
Pick(S) == S
PickOne(S) == {RandomElement(S)}
vars == <<top, bnd, mvars>>
Entries == [cls : {"nodes"}, type : Types, id : Ids, tag : {0}] \cup [cls : {"connections"}, type : {"E"}, id : Ids, tag : {0}]
Tagged(e, f, n) == [e EXCEPT !.tag = n + Len(f)]
Init == top = <<>> /\ bnd = <<>> /\ left = {} /\ right = {} /\ out = {} /\ verdict = "start"
Top == verdict = "start" /\ bnd = <<>> /\ Len(top) < MaxTop
       /\ \E e \in Pick(Entries) : top' = Append(top, Tagged(e, top, 1)) /\ UNCHANGED <<bnd, mvars>>
Bnd == verdict = "start" /\ Len(bnd) < MaxBnd
       /\ \E e \in Pick(Entries) : bnd' = Append(bnd, Tagged(e, bnd, 101)) /\ UNCHANGED <<top, mvars>>
Begin == Walk(top, bnd) /\ UNCHANGED <<top, bnd>>
S == Sorts(top) \cup Sorts(bnd)
DropSurplus == \E s \in S : Surplus(s) /\ UNCHANGED <<top, bnd>>
AttachOne == \E s \in S : Attach(s) /\ UNCHANGED <<top, bnd>>
KeepPlain == \E s \in S : Plain(s, bnd) /\ UNCHANGED <<top, bnd>>
StarveOne == \E s \in S : Starve(s, bnd) /\ UNCHANGED <<top, bnd>>
End == Done /\ UNCHANGED <<top, bnd>>
Next == Top \/ Bnd \/ Begin \/ DropSurplus \/ AttachOne \/ KeepPlain \/ StarveOne \/ End
Spec == Init /\ [][Next]_vars
Verdict == /\ verdict = "merged" => Mergeable(top, bnd) /\ out = Merged(top, bnd)
           /\ verdict = "rejected" => ~Mergeable(top, bnd)
(* never stuck before a verdict *)
Ends == verdict = "walking" => ENABLED Next
OnePerId == \A a, b \in out : a.id = b.id => a = b
(* behaviours handed to the real code: the composed files *)
Dump == verdict # "start" => CSVWrite("%1$s", <<ToJson([top |-> top, bnd |-> bnd])>>, IOEnv.GENOUT)
=============================================================================
