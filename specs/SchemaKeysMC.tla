---------------------------- MODULE SchemaKeysMC ----------------------------
EXTENDS SchemaKeys
Kinds == {"initial", "topology"}
Values == {"u", "v"}
Contents == { <<>>, << <<"a", "u">> >>, << <<"a", "v">>, <<"b", "u">> >>, << <<"b", "u">>, <<"a", "v">> >>,
              << <<Key, "mine">> >>, << <<"a", "u">>, <<Key, "mine">> >>, << <<"a", "u">>, <<Key, "mine">>, <<"b", "v">> >> }
Files == {None, Other} \cup { Object(q) : q \in Contents }
Init == files = [k \in Kinds |-> None] /\ schemas = {} /\ strange = FALSE /\ todo = {} /\ told = "" /\ own = [k \in Kinds |-> <<>>]
Edit == \E k \in Kinds : \E f \in Files : Write(k, f)
Remove == \E k \in Kinds : Drop(k)
Next == Begin \/ Give \/ Pass \/ Refuse \/ Finish \/ Generate \/ GenerateRefused \/ Edit \/ Remove \/ Litter
Spec == Init /\ [][Next]_skvars /\ WF_skvars(Give \/ Pass \/ Refuse \/ Finish)
OwnKept == \A k \in Kinds : Own(files[k]) = own[k]
Done == told = "ok" => \A k \in schemas : files[k].kind = "object" /\ files[k].items[1][1] = Key /\ Cardinality(References(files[k])) = 1
(* a file with a reference in front is not changed any more *)
Again == [][\A k \in Kinds : (Give /\ files[k] = Referenced(k, files[k])) => files'[k] = files[k]]_skvars
Answers == (told = "busy") ~> (told \in {"ok", "failed"})
=============================================================================
