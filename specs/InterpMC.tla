------------------------------ MODULE InterpMC ------------------------------
(* Small exhaustive instance of Interp, and generator of behaviours to replay: *)
(* every step records the operation it took.                                   *)
EXTENDS Interp, TLC, Json, IOUtils, CSV
CONSTANTS Depth
VARIABLE hist
PtsSet == {<<>>, <<"0">>, <<"0", "1">>, <<"1", "0">>, <<"0", "1", "3">>, <<"0", "1", "1">>, <<"0.5", "2">>}
ValSet(n) == IF n = 0 THEN {<<>>} ELSE { [k \in 1..n |-> ToString(k)], [k \in 1..n |-> ToString(10 - 3 * k)] }
Times == {"-1", "0", "0.25", "1", "2.5", "3", "4", "-0.00000000001", "3.00000000001"}
Log(r) == hist' = Append(hist, r)
MemSize == 6
Init == /\ obj = [s \in Slots |-> NoObj]
        /\ mem = [m \in Mems |-> [k \in 1..MemSize |-> ToString(k + 10 * m)]]
        /\ hist = <<>>
Next ==
  /\ Len(hist) < Depth
  /\ \E s \in Slots :
     \/ \E p \in PtsSet, w \in {1, 2}, ok \in BOOLEAN, k \in {"NewOwn", "FromJson"} :
          (k = "NewOwn" \/ p # <<>>) /\
          \E v \in ValSet(Len(p) * w) :
            NewOwn(s, p, w, v, ok) /\ Log([op |-> k, slot |-> s, pts |-> p, w |-> w, vals |-> v])
     \/ \E p \in PtsSet, w \in {1, 2}, m \in Mems, ok \in BOOLEAN, kind \in {"map", "cmap"}, d \in {0, 1} :
          LET n == w * Len(p) - d IN
          n > 0 /\ n <= MemSize /\ NewMap(s, kind, p, w, m, n, ok)
            /\ Log([op |-> "NewMap", slot |-> s, mk |-> kind, pts |-> p, w |-> w, mem |-> m, n |-> n])
     \/ \E i \in -1..3, ok \in BOOLEAN : Live(s) /\ \E r \in ValSet(W(s)) :
          SetRow(s, i, r, ok) /\ Log([op |-> "SetRow", slot |-> s, i |-> i, row |-> r])
     \/ \E i \in -1..3, ok \in BOOLEAN : Live(s) /\
          GetRow(s, i, ok, IF ok THEN RowOf(Vals(s), W(s), i) ELSE <<>>) /\ Log([op |-> "GetRow", slot |-> s, i |-> i])
     \/ \E ok \in BOOLEAN, n \in 1..6 : Live(s) /\ \E v \in ValSet(n) :
          Bulk(s, v, ok) /\ Log([op |-> "Bulk", slot |-> s, vals |-> v])
     \/ \E ok \in BOOLEAN : Zero(s, ok) /\ Log([op |-> "Zero", slot |-> s])
     \/ \E i \in 0..3, ok \in BOOLEAN, t \in {"0", "1.5", "9"} : Live(s) /\ \E r \in ValSet(W(s)) :
          Push(s, i, t, r, ok) /\ SortedPts(IF ok THEN [obj[s].pts EXCEPT ![i + 1] = t] ELSE obj[s].pts)
            /\ Log([op |-> "Push", slot |-> s, i |-> i, t |-> t, row |-> r])
     \/ \E t \in Times, ok \in BOOLEAN : Live(s) /\ N(s) > 0 /\ SortedPts(obj[s].pts) /\
          Eval(s, t, ok, IF ok THEN EvalAt(obj[s].pts, W(s), Vals(s), t) ELSE <<>>)
            /\ Log([op |-> "Eval", slot |-> s, t |-> t])
     \/ \E d \in Slots, ok \in BOOLEAN :
          \/ Assign(d, s, ok) /\ Log([op |-> "Assign", slot |-> d, src |-> s])
          \/ AssignBase(d, s, ok) /\ Log([op |-> "AssignBase", slot |-> d, src |-> s])
     \/ \E d \in Slots : \/ CopyNew(d, s) /\ d # s /\ Log([op |-> "CopyNew", slot |-> d, src |-> s])
                         \/ Move(d, s) /\ Log([op |-> "Move", slot |-> d, src |-> s])
                         \/ InterpolateFrom(d, s) /\ Log([op |-> "InterpolateFrom", slot |-> d, src |-> s])
                         \/ \E r \in BOOLEAN : Equal(d, s, r) /\ Log([op |-> "Equal", slot |-> d, src |-> s])
     \/ \E m \in Mems, n \in {1, 2, 4}, ok \in BOOLEAN :
          Remap(s, m, n, ok) /\ Log([op |-> "Remap", slot |-> s, mem |-> m, n |-> n])
Spec == Init /\ [][Next]_<<obj, mem, hist>>
(* simulation: a behaviour is written out once, when it is complete *)
Done == /\ Len(hist) = Depth
        /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.GENOUT)
        /\ Log([op |-> "End"]) /\ UNCHANGED ivars
GenSpec == Init /\ [][Next \/ Done]_<<obj, mem, hist>>
View == <<obj, mem, Len(hist)>>
(* a rejected operation changes nothing, and one slot's operation leaves owning
   containers in other slots alone *)
Isolated == [][\A s \in Slots : (hist' # hist /\ hist'[Len(hist')].slot # s /\ obj[s].kind = "own"
                 /\ ~(hist'[Len(hist')].op = "Move" /\ hist'[Len(hist')].src = s)) => obj'[s] = obj[s]]_<<obj, mem, hist>>
=============================================================================
