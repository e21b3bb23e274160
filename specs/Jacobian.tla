----------------------------- MODULE Jacobian -----------------------------
(* The block-structured constraint Jacobian handed to the optimization back  *)
(* end. Its structure is a sequence idx of <<row, column>> pairs (from 0) in *)
(* the order in which the values are delivered; values live in the object    *)
(* ("own") or in storage elsewhere ("map", storage 0 is a null pointer).     *)
EXTENDS Integers, Sequences, FiniteSets, Flt
CONSTANTS Slots, Mems
VARIABLES obj, mem
jvars == <<obj, mem>>
NoObj == [kind |-> "none"]
Live(s) == obj[s].kind # "none"
Range(f) == { f[i] : i \in DOMAIN f }

(* a constraint at time gt[i] may depend on the control values at ct[j] only
   if some step up to that time interpolates them *)
MayDepend(ct, gt, i, j) == j = 1 \/ FLt(ct[j - 1], gt[i])
Needed(h, w, ct, gt) ==
  UNION { { <<(i - 1) * h + a, (j - 1) * w + b>> : a \in 0..(h - 1), b \in 0..(w - 1) } :
            <<i, j>> \in { p \in (1..Len(gt)) \X (1..Len(ct)) : MayDepend(ct, gt, p[1], p[2]) } }
(* whatever order the implementation chooses, this must hold of its structure *)
GoodStructure(idx, h, w, ct, gt) ==
  /\ Cardinality(Range(idx)) = Len(idx)
  /\ \A k \in 1..Len(idx) : /\ idx[k][1] >= 0 /\ idx[k][1] < h * Len(gt)
                            /\ idx[k][2] >= 0 /\ idx[k][2] < w * Len(ct)
  /\ Needed(h, w, ct, gt) \subseteq Range(idx)

Vals(s) == IF obj[s].kind = "own" THEN obj[s].vals ELSE SubSeq(mem[obj[s].m], 1, Len(obj[s].idx))
Null(s) == obj[s].kind = "map" /\ obj[s].m = 0
Store(s, v) == IF obj[s].kind = "own" THEN obj' = [obj EXCEPT ![s].vals = v] /\ UNCHANGED mem
               ELSE mem' = [mem EXCEPT ![obj[s].m] = [k \in 1..Len(@) |-> IF k <= Len(v) THEN v[k] ELSE @[k]]] /\ UNCHANGED obj
SameStructure(s, t) == obj[s].h = obj[t].h /\ obj[s].w = obj[t].w /\ obj[s].idx = obj[t].idx
                       /\ Len(obj[s].ct) = Len(obj[t].ct) /\ Len(obj[s].gt) = Len(obj[t].gt)

New(s, kind, h, w, ct, gt, m, idx) ==
  /\ GoodStructure(idx, h, w, ct, gt)
  /\ obj' = [obj EXCEPT ![s] = [kind |-> kind, h |-> h, w |-> w, ct |-> ct, gt |-> gt, m |-> m, idx |-> idx,
                                vals |-> [k \in 1..(IF kind = "own" THEN Len(idx) ELSE 0) |-> "0"]]]
  /\ UNCHANGED mem
(* every access through a null pointer is an error *)
Fill(s, x, ok) == /\ Live(s) /\ ok = ~Null(s)
                  /\ IF ok THEN Store(s, [k \in 1..Len(obj[s].idx) |-> x]) ELSE UNCHANGED jvars
(* block j (from 1) of the columns; r0 says how many of its rows are skipped *)
BlockRows(s, j) == { obj[s].idx[k][1] : k \in { n \in 1..Len(obj[s].idx) : obj[s].idx[n][2] \div obj[s].w = j - 1 } }
FirstRow(s, j) == IF BlockRows(s, j) = {} THEN obj[s].h * Len(obj[s].gt)
                  ELSE CHOOSE r \in BlockRows(s, j) : \A q \in BlockRows(s, j) : r <= q
(* mode "set" replaces, "add" accumulates; M is a sequence of rows *)
PutBlock(s, j, r0, M, mode, ok) ==
  /\ Live(s) /\ obj[s].w > 0 /\ ok = ~Null(s)
  /\ IF ~ok THEN UNCHANGED jvars
     ELSE LET first == FirstRow(s, j) + r0
              old == Vals(s)
              hit(k) == /\ obj[s].idx[k][2] \div obj[s].w = j - 1
                        /\ obj[s].idx[k][1] >= first /\ obj[s].idx[k][1] < first + Len(M)
              new(k) == M[obj[s].idx[k][1] - first + 1][(obj[s].idx[k][2] % obj[s].w) + 1]
          IN Store(s, [k \in 1..Len(old) |-> IF ~hit(k) THEN old[k] ELSE IF mode = "set" THEN new(k) ELSE FAdd(old[k], new(k))])
Assign(d, s, ok) ==
  /\ Live(d) /\ Live(s)
  /\ ok = (SameStructure(d, s) /\ ~Null(d) /\ ~Null(s))
  /\ IF ok THEN Store(d, Vals(s)) ELSE UNCHANGED jvars
CopyNew(d, s, ok) ==
  /\ Live(s) /\ ok = ~Null(s)
  /\ IF ok THEN obj' = [obj EXCEPT ![d] = [obj[s] EXCEPT !.kind = "own", !.m = 0, !.vals = Vals(s)]] ELSE UNCHANGED obj
  /\ UNCHANGED mem
Replace(s, m) == Live(s) /\ obj[s].kind = "map" /\ obj' = [obj EXCEPT ![s].m = m] /\ UNCHANGED mem
Equal(s, t, ok, r) ==
  /\ Live(s) /\ Live(t) /\ UNCHANGED jvars
  /\ IF ~SameStructure(s, t) THEN ok /\ ~r
     ELSE /\ ok = ~(Null(s) \/ Null(t))
          /\ ok => r = (\A k \in 1..Len(Vals(s)) : FEq(Vals(s)[k], Vals(t)[k]))
Dense(s) == [r \in 1..(obj[s].h * Len(obj[s].gt)) |-> [c \in 1..(obj[s].w * Len(obj[s].ct)) |->
               LET K == { k \in 1..Len(obj[s].idx) : obj[s].idx[k] = <<r - 1, c - 1>> } IN
               IF K = {} THEN "0" ELSE Vals(s)[CHOOSE k \in K : TRUE]]]
=============================================================================
