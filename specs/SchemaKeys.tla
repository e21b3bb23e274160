----------------------------- MODULE SchemaKeys -----------------------------
(* The commands around schemas, on one problem directory: generating the      *)
(* schema files and inserting references to them into the data files.         *)
(* A data file is "none" (absent), "object" (items: its keys and values in    *)
(* order), or "other" (anything that is no JSON object).                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES files,    \* kind of data -> file
          schemas,  \* kinds whose schema exists
          strange,  \* the schema directory holds something unknown
          todo, told,
          own       \* what users wrote: kind -> keys and values without reference
skvars == <<files, schemas, strange, todo, told, own>>
Key == "$schema"
Ref(k) == "../schemas/" \o k \o "_schema.json"
None == [kind |-> "none", items |-> <<>>]
Object(q) == [kind |-> "object", items |-> q]
Other == [kind |-> "other", items |-> <<>>]
Own(f) == SelectSeq(f.items, LAMBDA x : x[1] # Key)
References(f) == { x[2] : x \in { f.items[i] : i \in { j \in 1..Len(f.items) : f.items[j][1] = Key } } }
Usable(f) == f.kind # "other"
(* -------- what inserting promises for one file -------- *)
Named(k, f) == IF References(f) = {} THEN Ref(k) ELSE CHOOSE x \in References(f) : TRUE
Referenced(k, f) == Object(<< <<Key, Named(k, f)>> >> \o Own(f))
(* each file is complete in its old or its new form *)
Inserted(S, old, new, ok) ==
  \A k \in DOMAIN old :
    IF k \notin S \/ ~Usable(old[k]) THEN new[k] = old[k]
    ELSE new[k] = Referenced(k, old[k]) \/ (~ok /\ new[k] = old[k])
InsertFine(S, old) == \A k \in S \cap DOMAIN old : Usable(old[k])
(* -------- steps -------- *)
Idle == told # "busy"
Begin == Idle /\ told' = "busy" /\ todo' = DOMAIN files /\ UNCHANGED <<files, schemas, strange, own>>
Give == told = "busy" /\ \E k \in todo \cap schemas : Usable(files[k])
        /\ files' = [files EXCEPT ![k] = Referenced(k, files[k])] /\ todo' = todo \ {k} /\ UNCHANGED <<schemas, strange, told, own>>
Pass == told = "busy" /\ \E k \in todo \ schemas : todo' = todo \ {k} /\ UNCHANGED <<files, schemas, strange, told, own>>
Refuse == told = "busy" /\ \E k \in todo \cap schemas : ~Usable(files[k]) /\ todo' = {} /\ told' = "failed" /\ UNCHANGED <<files, schemas, strange, own>>
Finish == told = "busy" /\ todo = {} /\ told' = "ok" /\ UNCHANGED <<files, schemas, strange, todo, own>>
Generate == Idle /\ ~strange /\ schemas' = DOMAIN files /\ told' = "" /\ UNCHANGED <<files, strange, todo, own>>
GenerateRefused == Idle /\ strange /\ told' = "failed" /\ UNCHANGED <<files, schemas, strange, todo, own>>
(* users write and remove files in between *)
Write(k, f) == Idle /\ files' = [files EXCEPT ![k] = f] /\ own' = [own EXCEPT ![k] = Own(f)] /\ told' = "" /\ UNCHANGED <<schemas, strange, todo>>
Drop(k) == Idle /\ k \in schemas /\ schemas' = schemas \ {k} /\ told' = "" /\ UNCHANGED <<files, strange, todo, own>>
Litter == Idle /\ strange' = ~strange /\ told' = "" /\ UNCHANGED <<files, schemas, todo, own>>
=============================================================================
