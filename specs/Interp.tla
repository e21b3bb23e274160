------------------------------- MODULE Interp -------------------------------
(* The time-series container grazer keeps every control, bound, boundary     *)
(* value, constraint and state trajectory in. A slot holds either an owning   *)
(* container ("own"), one that maps foreign storage ("map") or one that maps  *)
(* it read-only ("cmap"); mapped containers share their storage through mem.  *)
EXTENDS Integers, Sequences, FiniteSets, Flt
CONSTANTS Slots, Mems
VARIABLES obj, mem
ivars == <<obj, mem>>

EPS == "1e-10"
NoObj == [kind |-> "none", pts |-> <<>>, w |-> 0, vals |-> <<>>, m |-> 0]
SortedPts(p) == \A i \in 1..(Len(p) - 1) : FLe(p[i], p[i + 1])
Vals(s) == IF obj[s].kind = "own" THEN obj[s].vals
           ELSE SubSeq(mem[obj[s].m], 1, Len(obj[s].pts) * obj[s].w)
N(s) == Len(obj[s].pts)
W(s) == obj[s].w
Live(s) == obj[s].kind # "none"
Mutable(s) == obj[s].kind \in {"own", "map"}
(* row i (from 0) of a flat sequence of rows of width w *)
RowOf(v, w, i) == [k \in 1..w |-> v[i * w + k]]
PutRow(v, w, i, r) == [k \in 1..Len(v) |-> IF (k - 1) \div w = i THEN r[((k - 1) % w) + 1] ELSE v[k]]
PutPrefix(v, p) == [k \in 1..Len(v) |-> IF k <= Len(p) THEN p[k] ELSE v[k]]

SameStructure(s, t) == /\ W(s) = W(t) /\ N(s) = N(t)
                       /\ \A i \in 1..N(s) : FEq(obj[s].pts[i], obj[t].pts[i])

(* ------------------------------------------------------- interpolation ---- *)
(* "low"/"high": outside the range the points cover; otherwise the value.      *)
Where(p, t) == IF FLt(FAdd(p[Len(p)], EPS), t) THEN "high"
               ELSE IF FLt(t, FSub(p[1], EPS)) THEN "low" ELSE "in"
EvalAt(p, w, v, t) ==
  LET n == Len(p) IN
  IF FLe(p[n], t) THEN RowOf(v, w, n - 1)
  ELSE IF FLe(t, p[1]) THEN RowOf(v, w, 0)
  ELSE LET i == CHOOSE j \in 2..n : FLe(t, p[j]) /\ \A k \in 1..(j - 1) : FLt(p[k], t)
           lam == FDiv(FSub(t, p[i - 1]), FSub(p[i], p[i - 1]))
           a == RowOf(v, w, i - 2)
           b == RowOf(v, w, i - 1)
       IN [k \in 1..w |-> FAdd(FMul(FSub(1, lam), a[k]), FMul(lam, b[k]))]

(* ---------------------------------------------------------------- actions -- *)
Put(s, o) == obj' = [obj EXCEPT ![s] = o]
SetVals(s, v) == IF obj[s].kind = "own"
                 THEN obj' = [obj EXCEPT ![s].vals = v] /\ UNCHANGED mem
                 ELSE mem' = [mem EXCEPT ![obj[s].m] = PutPrefix(@, v)] /\ UNCHANGED obj

NewOwn(s, p, w, v, ok) ==
  /\ ok = SortedPts(p)
  /\ IF ok THEN Put(s, [kind |-> "own", pts |-> p, w |-> w, vals |-> v, m |-> 0])
           ELSE UNCHANGED obj
  /\ UNCHANGED mem
NewMap(s, kind, p, w, m, n, ok) ==
  /\ ok = (SortedPts(p) /\ n = w * Len(p))
  /\ IF ok THEN Put(s, [kind |-> kind, pts |-> p, w |-> w, vals |-> <<>>, m |-> m])
           ELSE UNCHANGED obj
  /\ UNCHANGED mem
SetRow(s, i, r, ok) ==
  /\ Live(s)
  /\ ok = (i >= 0 /\ i < N(s) /\ Mutable(s))
  /\ IF ok THEN SetVals(s, PutRow(Vals(s), W(s), i, r)) ELSE UNCHANGED ivars
GetRow(s, i, ok, r) ==
  /\ Live(s)
  /\ ok = (i >= 0 /\ i < N(s))
  /\ ok => r = RowOf(Vals(s), W(s), i)
  /\ UNCHANGED ivars
Bulk(s, v, ok) ==
  /\ Live(s)
  /\ ok = (Mutable(s) /\ Len(v) = Len(Vals(s)))
  /\ IF ok THEN SetVals(s, v) ELSE UNCHANGED ivars
Zero(s, ok) ==
  /\ Live(s)
  /\ ok = Mutable(s)
  /\ IF ok THEN SetVals(s, [k \in 1..Len(Vals(s)) |-> "0"]) ELSE UNCHANGED ivars
(* overwrites both a row and its point in time *)
Push(s, i, t, r, ok) ==
  /\ Live(s)
  /\ ok = (i >= 0 /\ i < N(s) /\ Mutable(s))
  /\ IF ~ok THEN UNCHANGED ivars
     ELSE IF obj[s].kind = "own"
     THEN obj' = [obj EXCEPT ![s].pts[i + 1] = t, ![s].vals = PutRow(@, W(s), i, r)] /\ UNCHANGED mem
     ELSE /\ obj' = [obj EXCEPT ![s].pts[i + 1] = t]
          /\ mem' = [mem EXCEPT ![obj[s].m] = PutPrefix(@, PutRow(Vals(s), W(s), i, r))]
Eval(s, t, ok, r) ==
  /\ Live(s) /\ N(s) > 0
  /\ ok = (Where(obj[s].pts, t) = "in")
  /\ ok => FCloseSeq(r, EvalAt(obj[s].pts, W(s), Vals(s), t), "1e-11", "1e-11")
  /\ UNCHANGED ivars
(* an owning container takes over the other one's structure and values *)
Assign(d, s, ok) ==
  /\ Live(d) /\ Live(s) /\ obj[d].kind # "cmap"
  /\ IF obj[d].kind = "own"
     THEN ok /\ Put(d, [kind |-> "own", pts |-> obj[s].pts, w |-> W(s), vals |-> Vals(s), m |-> 0]) /\ UNCHANGED mem
     ELSE ok = SameStructure(d, s) /\ (IF ok THEN SetVals(d, Vals(s)) ELSE UNCHANGED ivars)
(* through the common interface the structure is never changed *)
AssignBase(d, s, ok) ==
  /\ Live(d) /\ Live(s)
  /\ ok = (SameStructure(d, s) /\ Mutable(d))
  /\ IF ok THEN SetVals(d, Vals(s)) ELSE UNCHANGED ivars
CopyNew(d, s) ==
  /\ Live(s)
  /\ Put(d, [kind |-> "own", pts |-> obj[s].pts, w |-> W(s), vals |-> Vals(s), m |-> 0])
  /\ UNCHANGED mem
Move(d, s) ==
  /\ d # s /\ Live(s) /\ obj[s].kind = "own" /\ obj[d].kind \in {"own", "none"}
  /\ obj' = [obj EXCEPT ![d] = obj[s], ![s] = NoObj]
  /\ UNCHANGED mem
Equal(s, t, r) ==
  /\ Live(s) /\ Live(t)
  /\ r = (SameStructure(s, t) /\ \A k \in 1..Len(Vals(s)) : FEq(Vals(s)[k], Vals(t)[k]))
  /\ UNCHANGED ivars
CanInterpolateFrom(d, s) ==
  /\ Live(d) /\ Live(s) /\ Mutable(d) /\ d # s /\ W(d) = W(s)
  /\ SortedPts(obj[s].pts) /\ SortedPts(obj[d].pts)
  /\ N(d) > 0 => /\ N(s) > 0
                 /\ FLe(obj[s].pts[1], obj[d].pts[1]) /\ FLe(obj[d].pts[N(d)], obj[s].pts[N(s)])
  /\ (obj[d].kind = "map" /\ obj[s].kind # "own") => obj[d].m # obj[s].m
Resampled(d, s) ==
  [k \in 1..(N(d) * W(d)) |->
     EvalAt(obj[s].pts, W(s), Vals(s), obj[d].pts[((k - 1) \div W(d)) + 1])[((k - 1) % W(d)) + 1]]
InterpolateFrom(d, s) == CanInterpolateFrom(d, s) /\ SetVals(d, Resampled(d, s))
Remap(s, m, n, ok) ==
  /\ Live(s) /\ obj[s].kind = "cmap"
  /\ ok = (n = Len(Vals(s)))
  /\ IF ok THEN obj' = [obj EXCEPT ![s].m = m] ELSE UNCHANGED obj
  /\ UNCHANGED mem
(* rows read from an input file *)
FromJson(s, p, w, v, ok) == NewOwn(s, p, w, v, ok)

(* ------------------------------------------------------------- properties -- *)
Shape == \A s \in Slots : Live(s) => /\ Len(Vals(s)) = N(s) * W(s)
                                     /\ obj[s].kind = "own" => Len(obj[s].vals) = N(s) * W(s)
(* the value at a point is the stored row; between two points it stays between *)
ExactAtPoints ==
  \A s \in Slots : Live(s) /\ SortedPts(obj[s].pts) /\ N(s) > 0 =>
    \A i \in 1..N(s) :
      (\A j \in 1..N(s) : j # i => ~FEq(obj[s].pts[i], obj[s].pts[j])) =>
        FCloseSeq(EvalAt(obj[s].pts, W(s), Vals(s), obj[s].pts[i]), RowOf(Vals(s), W(s), i - 1), "1e-12", "1e-12")
Between ==
  \A s \in Slots : Live(s) /\ SortedPts(obj[s].pts) /\ N(s) > 1 =>
    \A i \in 1..(N(s) - 1) : FLt(obj[s].pts[i], obj[s].pts[i + 1]) =>
      LET mid == FDiv(FAdd(obj[s].pts[i], obj[s].pts[i + 1]), 2)
          x == EvalAt(obj[s].pts, W(s), Vals(s), mid)
          a == RowOf(Vals(s), W(s), i - 1)
          b == RowOf(Vals(s), W(s), i)
      IN \A k \in 1..W(s) : FLe(FMin(a[k], b[k]), x[k]) /\ FLe(x[k], FMax(a[k], b[k]))
=============================================================================
