--------------------------- MODULE JacobianTrace ---------------------------
EXTENDS Jacobian, TraceBase
tvars == <<obj, mem, l>>
Init == obj = [s \in Slots |-> NoObj] /\ mem = [m \in Mems |-> <<>>] /\ TraceStart
Exact(a, b) == FCloseSeq(a, b, "0", "0")
Observed(e) ==
  /\ \A m \in Mems : Exact(e.mem[m], mem'[m])
  /\ \A s \in Slots :
       LET o == e.objs[s] n == obj'[s] IN
       /\ o.kind = n.kind
       /\ n.kind # "none" =>
            /\ o.idx = n.idx /\ o.h = n.h /\ o.w = n.w
            /\ o.inner = <<n.h * Len(n.gt), n.w * Len(n.ct)>> /\ o.outer = <<Len(n.gt), Len(n.ct)>>
            /\ o.readable = ~(n.kind = "map" /\ n.m = 0)
            /\ o.readable =>
                 LET v == IF n.kind = "own" THEN n.vals ELSE SubSeq(mem'[n.m], 1, Len(n.idx))
                     at(r, c) == LET K == { k \in 1..Len(n.idx) : n.idx[k] = <<r, c>> } IN
                                 IF K = {} THEN "0" ELSE v[CHOOSE k \in K : TRUE] IN
                 /\ Exact(o.vals, v)
                 /\ \A r \in 1..(n.h * Len(n.gt)) : Exact(o.dense[r], [c \in 1..(n.w * Len(n.ct)) |-> at(r - 1, c - 1)])
                 /\ \A j \in 1..Len(n.ct) : \A r \in 1..Len(o.blocks[j].rows) :
                      Exact(o.blocks[j].rows[r], [b \in 1..n.w |-> at(o.blocks[j].first + r - 1, (j - 1) * n.w + b - 1)])
(* a fresh object's values are whatever the handler set it to: all zero *)
Op(e) ==
  CASE e.op = "New" -> e.ok /\ New(e.slot, e.kind, e.h, e.w, e.ct, e.gt, e.m, e.objs[e.slot].idx)
    [] e.op = "Fill" -> Fill(e.slot, e.x, e.ok)
    [] e.op = "Block" -> PutBlock(e.slot, e.j, e.r0, e.mat, e.mode, e.ok)
    [] e.op = "Assign" -> Assign(e.slot, e.src, e.ok)
    [] e.op = "CopyNew" -> CopyNew(e.slot, e.src, e.ok)
    [] e.op = "Equal" -> e.val # e.neg /\ Equal(e.slot, e.src, e.ok, e.val)
    [] e.op = "Replace" -> e.ok /\ Replace(e.slot, e.m)
    [] OTHER -> FALSE
Step(e) ==
  \/ /\ e.ev = "Start" /\ obj' = [s \in Slots |-> NoObj] /\ mem' = [m \in Mems |-> e.mem[m]]
  \/ e.ev = "Op" /\ Op(e) /\ Observed(e)
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_tvars
=============================================================================
