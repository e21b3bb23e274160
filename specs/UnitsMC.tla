------------------------------- MODULE UnitsMC -------------------------------
(* The machine reads exactly the denotations, and there is at most one, for    *)
(* all short texts; the real tables are free of ambiguity.                     *)
EXTENDS Units, TLC
CONSTANTS Alphabet, MaxLen
VARIABLES cs
U == INSTANCE UnitTables
vars == <<uvars, cs>>
SmallPrefixes == ("" :> "1" @@ "k" :> "1e3" @@ "d" :> "0.1" @@ "da" :> "10" @@ "m" :> "1e-3")
Small == ("m" :> U!U("1") @@ "am" :> U!U("3") @@ "1d" :> U!Power(2))
Init == cs = <<>> /\ phase = "idle" /\ text = <<>> /\ rest = <<>> /\ found = <<>>
Extend == phase = "idle" /\ Len(cs) < MaxLen /\ \E c \in Alphabet : cs' = Append(cs, c) /\ UNCHANGED uvars
Begin == Give(cs) /\ UNCHANGED cs
Symbol == \E s \in DOMAIN Small : StripSymbol(Small, s) /\ UNCHANGED cs
Unknown == NoSymbol(Small) /\ UNCHANGED cs
Num == StripNumber /\ UNCHANGED cs
Prefix == LookUp /\ UNCHANGED cs
Next == Extend \/ Begin \/ Symbol \/ Unknown \/ Num \/ Prefix
Spec == Init /\ [][Next]_vars
Sound == phase = "read" => found \in Readings(Small, text)
Complete == phase = "rejected" /\ Readings(Small, text) # {} => \E r \in Readings(Small, text) : r.symbol # found.symbol
Unambiguous == \A m \in DOMAIN U!Measures : \A s, t \in DOMAIN U!Measures[m], p, q \in DOMAIN U!SI :
  Glue(<<p, s>>) = Glue(<<q, t>>) => p = q /\ s = t
ASSUME Unambiguous
=============================================================================
