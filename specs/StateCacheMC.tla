---------------------------- MODULE StateCacheMC ----------------------------
EXTENDS StateCache, TLC, Json, IOUtils, CSV
CONSTANTS Keys, Failing, Depth
VARIABLE hist
Simulates(k) == k \notin Failing
Init == SCInit /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \/ \E k \in Keys, s \in BOOLEAN :
                \/ Refresh(k, Simulates(k), Simulates(k), s) /\ hist' = Append(hist, [op |-> "Refresh", key |-> k])
                \/ Check(k, Simulates(k), Simulates(k), s) /\ hist' = Append(hist, [op |-> "Check", key |-> k])
           \/ Get /\ hist' = Append(hist, [op |-> "Get", key |-> 1])
Spec == Init /\ [][Next]_<<held, failed, hist>>
Done == /\ Len(hist) = Depth
        /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.GENOUT)
        /\ hist' = Append(hist, [op |-> "End", key |-> 0]) /\ UNCHANGED scvars
GenSpec == Init /\ [][Next \/ Done]_<<held, failed, hist>>
View == <<held, failed, Len(hist)>>
NeverServesFailed == (held = None \/ held[1] \notin Failing) /\ (failed = None \/ failed[1] \in Failing)
(* the last successful request is the one held *)
HoldsLast == LET S == { i \in 1..Len(hist) : hist[i].op \in {"Refresh", "Check"} /\ hist[i].key \notin Failing } IN
  IF S = {} THEN held = None ELSE held = <<hist[CHOOSE i \in S : \A j \in S : j <= i].key>>
=============================================================================
