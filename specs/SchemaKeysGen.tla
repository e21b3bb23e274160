---------------------------- MODULE SchemaKeysGen ----------------------------
(* Histories of edits and commands over all five kinds of data files.         *)
EXTENDS SchemaKeys, CSV, Json, IOUtils
Kinds == {"boundary", "control", "initial", "topology", "problem_data"}
VARIABLES hist
gvars == <<skvars, hist>>
Names == {"a", "b", "c", Key}
Contents == { q \in UNION { [1..n -> Names] : n \in 0..3 } : \A i, j \in DOMAIN q : i # j => q[i] # q[j] }
Item(n) == <<n, IF n = Key THEN "mine" ELSE n>>
(* (depends on the state, so that every step draws again) *)
OneOf(S) == {RandomElement({ x \in S : Len(hist) >= 0 })}
Some == {None, Other} \cup { Object([i \in DOMAIN q |-> Item(q[i])]) : q \in OneOf(Contents) }
Log(op, k, f) == hist' = Append(hist, [op |-> op, k |-> k, f |-> f])
Init == files = [k \in Kinds |-> None] /\ schemas = {} /\ strange = FALSE /\ todo = {} /\ told = "" /\ own = [k \in Kinds |-> <<>>] /\ hist = <<>>
Edit == \E k \in OneOf(Kinds) : \E f \in Some : Write(k, f) /\ Log("edit", k, f)
Remove == \E k \in OneOf(Kinds) : Drop(k) /\ Log("drop", k, None)
Start == Begin /\ Log("insert", "", None)
Make == (Generate \/ GenerateRefused) /\ Log("generate", "", None)
Mess == Litter /\ Log("litter", "", None)
Hidden == (Give \/ Pass \/ Refuse \/ Finish) /\ UNCHANGED hist
Next == Edit \/ Remove \/ Start \/ Make \/ Mess \/ Hidden
Spec == Init /\ [][Next]_gvars
Dump == Len(hist) = 12 => CSVWrite("%1$s", <<ToJson([ops |-> hist])>>, IOEnv.GENOUT)
Short == Len(hist) <= 12
=============================================================================
