------------------------------ MODULE DefaultsMC ------------------------------
EXTENDS Defaults
CONSTANT MaxMade
Quantity == ClosedS([u |-> StringS, w |-> NumberS], {"u", "w"})
S == ObjectS([a |-> NumberS, b |-> NumberS, o |-> Quantity], {"a", "o"})
Wrong == Str("no")
Opt(name, vals) == { [x \in {} |-> 0] } \cup { name :> v : v \in vals }
Joined(A, B) == { f @@ g : f \in A, g \in B }
Quantities(n) == { ObjOf(f) : f \in Joined(Opt("u", {Str("m"), Num(n)}), Opt("w", {Num(n), Wrong})) } \cup {Wrong}
Entries == { ObjOf(f) : f \in Joined(Joined(Opt("a", {Num("1"), Wrong}), Opt("b", {Num("1")})), Joined(Opt("o", Quantities("1")), Opt("z", {Num("1")}))) }
Config == { ObjOf(f) : f \in Joined(Joined(Opt("a", {Num("2"), Wrong}), Opt("b", {Num("2"), Wrong})), Joined(Opt("o", Quantities("2")), Opt("y", {Num("2")}))) }
Few == { ObjOf(f) : f \in Joined(Opt("a", {Num("1")}), Opt("o", {ObjOf("w" :> Num("1"))})) }
Ran == config # Str("unset")
MInit == config = Str("unset") /\ made = <<>>
Set == config = Str("unset") /\ \E d \in Config : Configure(d)
First == Ran /\ made = <<>> /\ \E v \in Entries : Make(v, S)
Later == Len(made) \in 1..(MaxMade - 1) /\ \E v \in Few : Make(v, S)
MNext == Set \/ First \/ Later
MSpec == MInit /\ [][MNext]_fvars
RECURSIVE Kept(_, _)
Kept(v, w) == \A n \in Keys(v) : n \in Keys(w) /\ (IF IsObj(v.m[n]) /\ IsObj(w.m[n]) THEN Kept(v.m[n], w.m[n]) ELSE v.m[n] = w.m[n])
Last == made[Len(made)]
(* what is given stays; exactly the missing keys with a default come in *)
GivenStays == (Ran /\ made # <<>>) => Kept(Last.from, Last.to)
Exactly == (Ran /\ made # <<>> /\ DefaultsOk(config, S)) =>
  /\ Keys(Last.to) = Keys(Last.from) \cup Keys(config)
  /\ \A n \in Keys(Last.to) \ Keys(Last.from) : Last.to.m[n] = config.m[n]
  /\ Fill(Last.to, config, S) = Last.to
(* required data are enforced *)
Enforced == (Ran /\ made # <<>> /\ Last.ok) =>
  /\ S.req \subseteq (Keys(Last.from) \cup Keys(config)) /\ Quantity.req \subseteq Keys(Last.to.m["o"])
  /\ \A n \in Keys(Last.to) \cap DOMAIN S.props : Valid(Last.to.m[n], S.props[n])
  /\ DefaultsOk(config, S)
(* the result depends on the own entry only *)
Independent == \A i \in 1..Len(made) : \A j \in 1..Len(made) :
  made[i].from = made[j].from => made[i].ok = made[j].ok /\ made[i].to = made[j].to
(* defaults that are fine for themselves never spoil a component that is fine *)
Harmless == (Ran /\ made # <<>> /\ DefaultsOk(config, S) /\ Sound(config, S) /\ Valid(Last.from, S)) => Last.ok
(* the published schema allows exactly what can be built *)
Agreement == (Ran /\ made # <<>> /\ DefaultsOk(config, S) /\ Complete(config, S)) =>
  (Valid(Last.from, Published(config, S)) <=> Last.ok)
=============================================================================
