------------------------------ MODULE OutputsMC ------------------------------
EXTENDS Outputs, Json, IOUtils, CSV
CONSTANTS RunIds, Names, MaxTries, Recording
VARIABLES sched
vars == <<xvars, sched>>
Pick(S) == S
PickOne(S) == {RandomElement(S)}
Log(o) == sched' = IF Recording THEN Append(sched, o) ELSE sched
Init == /\ \E B \in SUBSET Names : owner = [n \in B |-> "before"]
        /\ asked = [r \in RunIds |-> <<>>] /\ state = [r \in RunIds |-> "idle"] /\ got = [r \in RunIds |-> ""] /\ hurt = {} /\ sched = <<>>
(* between asking for a name and taking it others may act *)
Waits(r) == asked[r] # <<>> /\ \E n \in {asked[r][Len(asked[r])]} : n \notin Taken
Start == \E r \in RunIds : Begin(r) /\ Log([op |-> "begin", r |-> r, n |-> ""])
Running == \E r \in RunIds : state[r] \in {"idle", "busy"}
Ask == Running /\ \E r \in RunIds : \E n \in Pick(Names) : Len(asked[r]) < MaxTries /\ (asked[r] = <<>> \/ ~Waits(r)) /\ (AllTaken(r) \/ asked[r] = <<>>)
        /\ Generate(r, n) /\ Log([op |-> "ask", r |-> r, n |-> n])
AllButLast(r) == \A k \in 1..(Len(asked[r]) - 1) : asked[r][k] \in Taken /\ owner[asked[r][k]] # r
Grab == \E r \in RunIds : asked[r] # <<>> /\ AllButLast(r) /\ Take(r, asked[r][Len(asked[r])]) /\ Log([op |-> "grab", r |-> r, n |-> ""])
Other == Running /\ Cardinality({ n \in Taken : owner[n] = "rival" }) < 2 /\ \E n \in Pick(Names) : Rival(n) /\ Log([op |-> "rival", r |-> "", n |-> n])
Break == Running /\ hurt = {} /\ \E r \in Pick(RunIds) : r \notin hurt /\ Hurt(r) /\ Log([op |-> "hurt", r |-> r, n |-> ""])
Win == \E r \in RunIds, n \in Names : Succeed(r, n) /\ Log([op |-> "win", r |-> r, n |-> n])
Lose == \E r \in RunIds : Len(asked[r]) = MaxTries /\ GiveUp(r) /\ Log([op |-> "lose", r |-> r, n |-> ""])
Next == Start \/ Ask \/ Grab \/ Other \/ Break \/ Win \/ Lose
Spec == Init /\ [][Next]_vars /\ WF_vars(Start \/ Ask \/ Grab \/ Win \/ Lose)
NeverRemoved == [][\A n \in Taken : n \in DOMAIN owner' /\ owner'[n] = owner[n]]_vars
Finish == <>(\A r \in RunIds : state[r] \in {"has", "failed"})
NoLossForNothing == \A r \in RunIds : state[r] = "failed" => r \in hurt \/ AllTaken(r)
Ended == \A r \in RunIds : state[r] \in {"has", "failed"}
Dump == Ended => CSVWrite("%1$s", <<ToJson([sched |-> sched, asked |-> asked, before |-> { n \in Taken : owner[n] = "before" }])>>, IOEnv.GENOUT)
=============================================================================
