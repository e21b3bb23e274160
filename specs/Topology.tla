------------------------------ MODULE Topology ------------------------------
(* Merging the topology with the boundary values. A file is a sequence of     *)
(* entries [cls, type, id, tag]; the tag stands for everything else the entry *)
(* says; an entry without an id has the id "<none>".                          *)
EXTENDS Integers, Sequences, FiniteSets, Text
SetOfSeq(f) == { f[k] : k \in 1..Len(f) }
Named(f) == \A k \in 1..Len(f) : f[k].id # "<none>"
Distinct(f) == \A i, j \in 1..Len(f) : i # j => f[i].id # f[j].id
Sort(e) == <<e.cls, e.type>>
Sorts(f) == { Sort(f[k]) : k \in 1..Len(f) }
OfSort(f, s) == { f[k] : k \in { j \in 1..Len(f) : Sort(f[j]) = s } }
Partners(bnd, t) == { b \in OfSort(bnd, Sort(t)) : b.id = t.id }
Starved(top, bnd) == { t \in SetOfSeq(top) : Sort(t) \in Sorts(bnd) /\ Partners(bnd, t) = {} }
Mergeable(top, bnd) == Named(top) /\ Named(bnd) /\ Distinct(top) /\ Distinct(bnd) /\ Starved(top, bnd) = {}
With(bnd, t) == [cls |-> t.cls, type |-> t.type, id |-> t.id, tag |-> t.tag,
                 btag |-> IF Partners(bnd, t) = {} THEN -1 ELSE (CHOOSE b \in Partners(bnd, t) : TRUE).tag]
Merged(top, bnd) == { With(bnd, t) : t \in SetOfSeq(top) }
Ascending(m) == \A i, j \in 1..Len(m) : i < j /\ Sort(m[i]) = Sort(m[j]) => StrLt(m[i].id, m[j].id)

(* ---- the merge as a walk along the sorted entries of one sort at a time ---- *)
VARIABLES left, right, out, verdict
mvars == <<left, right, out, verdict>>
Least(S) == CHOOSE x \in S : \A y \in S : y = x \/ StrLt(x.id, y.id)
Walk(top, bnd) == /\ verdict = "start"
                  /\ left' = SetOfSeq(top) /\ right' = SetOfSeq(bnd) /\ UNCHANGED out
                  /\ verdict' = IF Named(top) /\ Named(bnd) /\ Distinct(top) /\ Distinct(bnd) THEN "walking" ELSE "rejected"
Here(s, S) == { x \in S : Sort(x) = s }
Surplus(s) == /\ verdict = "walking" /\ Here(s, right) # {}
              /\ LET b == Least(Here(s, right)) IN
                 /\ IF Here(s, left) = {} THEN TRUE ELSE StrLt(b.id, Least(Here(s, left)).id)
                 /\ right' = right \ {b}
              /\ UNCHANGED <<left, out, verdict>>
Attach(s) == /\ verdict = "walking" /\ Here(s, right) # {} /\ Here(s, left) # {}
             /\ LET b == Least(Here(s, right)) t == Least(Here(s, left)) IN
                /\ b.id = t.id
                /\ right' = right \ {b} /\ left' = left \ {t}
                /\ out' = out \cup {[cls |-> t.cls, type |-> t.type, id |-> t.id, tag |-> t.tag, btag |-> b.tag]}
             /\ UNCHANGED verdict
Plain(s, bnd) == /\ verdict = "walking" /\ s \notin Sorts(bnd) /\ Here(s, left) # {}
                 /\ LET t == Least(Here(s, left)) IN
                    /\ left' = left \ {t}
                    /\ out' = out \cup {[cls |-> t.cls, type |-> t.type, id |-> t.id, tag |-> t.tag, btag |-> -1]}
                 /\ UNCHANGED <<right, verdict>>
Starve(s, bnd) == /\ verdict = "walking" /\ s \in Sorts(bnd) /\ Here(s, left) # {}
                  /\ IF Here(s, right) = {} THEN TRUE ELSE StrLt(Least(Here(s, left)).id, Least(Here(s, right)).id)
                  /\ verdict' = "rejected" /\ UNCHANGED <<left, right, out>>
Done == verdict = "walking" /\ left = {} /\ right = {} /\ verdict' = "merged" /\ UNCHANGED <<left, right, out>>
=============================================================================
