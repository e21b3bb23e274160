---------------------------- MODULE InterpTrace ----------------------------
EXTENDS Interp, TraceBase
tvars == <<obj, mem, l>>
Empty == /\ obj = [s \in Slots |-> NoObj]
         /\ mem = [m \in Mems |-> <<>>]
Init == Empty /\ TraceStart
CloseAll(a, b) == FCloseSeq(a, b, "1e-11", "1e-11")
(* the projected state of the real objects after the call *)
Observed(e) ==
  /\ \A m \in Mems : CloseAll(e.mem[m], mem'[m])
  /\ \A s \in Slots :
       LET o == e.objs[s] n == obj'[s] IN
       /\ o.kind = n.kind
       /\ n.kind # "none" =>
            /\ o.w = n.w /\ o.n = Len(n.pts) /\ o.total = o.w * o.n
            /\ CloseAll(o.pts, n.pts)
            /\ CloseAll(o.vals, IF n.kind = "own" THEN n.vals ELSE SubSeq(mem'[n.m], 1, Len(n.pts) * n.w))
Op(e) ==
  CASE e.op = "NewOwn" -> NewOwn(e.slot, e.pts, e.w, e.vals, e.ok)
    [] e.op = "FromJson" -> FromJson(e.slot, e.pts, e.w, e.vals, e.ok)
    [] e.op = "NewMap" -> NewMap(e.slot, e.mk, e.pts, e.w, e.mem0, e.n, e.ok)
    [] e.op = "SetRow" -> SetRow(e.slot, e.i, e.row, e.ok)
    [] e.op = "GetRow" ->
          /\ Live(e.slot) /\ UNCHANGED ivars
          /\ e.ok = (e.i >= 0 /\ e.i < N(e.slot))
          /\ e.ok => (FCloseSeq(e.val, RowOf(Vals(e.slot), W(e.slot), e.i), "0", "0") /\ FEq(e.pt, obj[e.slot].pts[e.i + 1]))
    [] e.op = "Bulk" -> Bulk(e.slot, e.vals, e.ok)
    [] e.op = "Zero" -> Zero(e.slot, e.ok)
    [] e.op = "Push" -> Push(e.slot, e.i, e.t, e.row, e.ok)
    [] e.op = "Eval" -> Eval(e.slot, e.t, e.ok, e.val)
    [] e.op = "Assign" -> Assign(e.slot, e.src, e.ok)
    [] e.op = "AssignBase" -> AssignBase(e.slot, e.src, e.ok)
    [] e.op = "CopyNew" -> e.ok /\ CopyNew(e.slot, e.src)
    [] e.op = "Move" -> e.ok /\ Move(e.slot, e.src)
    [] e.op = "InterpolateFrom" -> e.ok /\ InterpolateFrom(e.slot, e.src)
    [] e.op = "Equal" -> e.ok /\ e.val = e.neg /\ Equal(e.slot, e.src, e.val)
    [] e.op = "Remap" -> Remap(e.slot, e.mem0, e.n, e.ok)
    [] OTHER -> FALSE
Step(e) ==
  \/ /\ e.ev = "Start"
     /\ obj' = [s \in Slots |-> NoObj] /\ mem' = [m \in Mems |-> e.mem[m]]
  \/ e.ev = "Op" /\ Op(e) /\ Observed(e)
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_tvars
=============================================================================
