---------------------------- MODULE JacobianMC ----------------------------
EXTENDS Jacobian, TLC, Json, IOUtils, CSV
CONSTANTS Depth
VARIABLE hist
(* the structure grazer's back end is given: blocks of columns, row by row *)
Rows(h, w, ct, gt, j) == { r \in 0..(h * Len(gt) - 1) : MayDepend(ct, gt, (r \div h) + 1, j) }
RECURSIVE Blocks(_, _, _, _, _)
Blocks(h, w, ct, gt, j) ==
  IF j > Len(ct) THEN <<>>
  ELSE LET R == Rows(h, w, ct, gt, j)
           lo == h * Len(gt) - Cardinality(R) IN
       [k \in 1..(Cardinality(R) * w) |-> <<lo + ((k - 1) \div w), (j - 1) * w + ((k - 1) % w)>>] \o Blocks(h, w, ct, gt, j + 1)
Structure(h, w, ct, gt) == Blocks(h, w, ct, gt, 1)
CtSet == {<<"0">>, <<"0", "1", "3">>}
GtSet == {<<>>, <<"2", "3">>, <<"1", "2", "3">>}
(* all choices; one at random when generating behaviours *)
Pick(S) == S
PickOne(S) == {RandomElement(S)}
Log(r) == hist' = Append(hist, r)
Init == /\ obj = [s \in Slots |-> NoObj] /\ mem = [m \in Mems |-> [k \in 1..60 |-> ToString(k + 100 * m)]] /\ hist = <<>>
M(n, w, k) == [i \in 1..n |-> [j \in 1..w |-> ToString(k * (i + 3 * j))]]
Next ==
  /\ Len(hist) < Depth
  /\ \E s \in Slots :
     \/ \E p \in Pick({ <<k, m>> \in {"own", "map"} \X ({0} \cup Mems) : k = "own" => m = 0 } \X (0..2) \X (1..2) \X CtSet \X GtSet) :
          LET kind == p[1][1] m == p[1][2] h == p[2] w == p[3] ct == p[4] gt == p[5] IN
          /\ New(s, kind, h, w, ct, gt, m, Structure(h, w, ct, gt))
          /\ Log([op |-> "New", slot |-> s, kind |-> kind, h |-> h, w |-> w, ct |-> ct, gt |-> gt, m |-> m])
     \/ \E x \in {"0", "1"}, ok \in BOOLEAN : Fill(s, x, ok) /\ Log([op |-> "Fill", slot |-> s, x |-> x])
     \/ Live(s) /\ \E j \in 1..Len(obj[s].ct), mode \in {"set", "add"}, k \in {7}, ok \in BOOLEAN :
          LET n == Cardinality(BlockRows(s, j)) IN \E r0 \in Pick(0..n) :
            /\ PutBlock(s, j, r0, M(n - r0, obj[s].w, k), mode, ok)
            /\ Log([op |-> "Block", slot |-> s, j |-> j, r0 |-> r0, mat |-> M(n - r0, obj[s].w, k), mode |-> mode])
     \/ \E d \in Slots, ok \in BOOLEAN :
          \/ Assign(d, s, ok) /\ Log([op |-> "Assign", slot |-> d, src |-> s])
          \/ d # s /\ CopyNew(d, s, ok) /\ Log([op |-> "CopyNew", slot |-> d, src |-> s])
          \/ \E r \in BOOLEAN : (~ok => ~r) /\ Equal(s, d, ok, r) /\ Log([op |-> "Equal", slot |-> s, src |-> d])
     \/ \E m \in {0} \cup Mems : Replace(s, m) /\ Log([op |-> "Replace", slot |-> s, m |-> m])
Spec == Init /\ [][Next]_<<obj, mem, hist>>
Done == /\ Len(hist) = Depth /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.GENOUT)
        /\ Log([op |-> "End"]) /\ UNCHANGED jvars
GenSpec == Init /\ [][Next \/ Done]_<<obj, mem, hist>>
View == <<obj, mem, Len(hist)>>
(* state times 0, 0.5, .. 3: the control at time t weighs the values at the two
   control times around it, so the constraint at g depends on every j with weight
   at some state time up to g *)
Weighs(ct, j, t) == \/ j = 1 /\ (Len(ct) = 1 \/ FLt(t, ct[2]))
                    \/ j > 1 /\ FLt(ct[j - 1], t) /\ (j = Len(ct) \/ FLt(t, ct[j + 1]))
Complete == \A s \in Slots : Live(s) =>
  \A i \in 1..Len(obj[s].gt), j \in 1..Len(obj[s].ct), a \in 0..(obj[s].h - 1), b \in 0..(obj[s].w - 1) :
    (\E t \in {"0.5", "1", "1.5", "2", "2.5", "3"} : FLe(t, obj[s].gt[i]) /\ Weighs(obj[s].ct, j, t))
      => <<(i - 1) * obj[s].h + a, (j - 1) * obj[s].w + b>> \in Range(obj[s].idx)
Sane == \A s \in Slots : Live(s) => /\ GoodStructure(obj[s].idx, obj[s].h, obj[s].w, obj[s].ct, obj[s].gt)
                                    /\ (~Null(s) => Len(Vals(s)) = Len(obj[s].idx))
=============================================================================
