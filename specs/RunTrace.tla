------------------------------ MODULE RunTrace ------------------------------
(* Runs of the real program on problem directories in a scratch folder: what  *)
(* was on disk before and after, the result files, what was printed, and what *)
(* grazer's parts yield for the same data (e.rep).                            *)
EXTENDS Results, DataFile, TimeGrid, NetTrace
VARIABLES problem, dirs, phase, mine, seen, hurt
uvars == <<problem, dirs, phase, mine, seen, hurt>>
Lifts(v) == v # "bad"
Possible(v) == v = "good"
R == INSTANCE Run WITH Valid <- Lifts, Computable <- Possible
(* -------- which problems are valid -------- *)
HasControls == \E c \in net : Controls(c) > 0
Needed(e) == {"problem_data.json", "initial.json", "topology", "boundary", "settings"}
             \cup (IF HasControls THEN {"control.json"} ELSE {})
             \cup (IF e.set.optimize THEN {"lower_bounds.json", "upper_bounds.json", "constraint_lower_bounds.json", "constraint_upper_bounds.json"} ELSE {})
ControlGridPossible(e) ==
  \/ ~HasControls
  \/ CASE e.set.cs = "none" -> TRUE
       [] e.set.cs = "delta" -> PossibleSDE(e.set.start, e.set.end, e.set.cdelta)
       [] e.set.cs = "number" -> PossibleSNE(e.set.start, e.set.end, e.set.cnumber)
       [] OTHER -> FALSE
GridsPossible(e) == PossibleSDE(e.set.start, e.set.end, e.set.delta) /\ ControlGridPossible(e)
GTimes(e) == LET ix == ConstraintIndices(Len(e.rep.times), IF e.set.every <= 0 THEN 1 ELSE e.set.every)
             IN [k \in 1..Len(ix) |-> e.rep.times[ix[k] + 1]]
DataFine(e) ==
  /\ Acceptable(net, "initial", e.given.initial, <<>>)
  /\ HasControls => Acceptable(net, "control", e.given.control, e.ctimes)
  /\ e.set.optimize =>
       /\ Acceptable(net, "lower", e.given.lower, e.ctimes) /\ Acceptable(net, "upper", e.given.upper, e.ctimes)
       /\ Acceptable(net, "clower", e.given.clower, GTimes(e)) /\ Acceptable(net, "cupper", e.given.cupper, GTimes(e))
(* no lower bound lies above its upper bound *)
Ordered(e, lo, hi, what, times) ==
  \A c \in Needs(net, what) : \A k \in 1..Len(times) :
    LET a == EntryOf(lo, c.id) b == EntryOf(hi, c.id) IN FLe(At(a.pts, a.vals, times[k], 1), At(b.pts, b.vals, times[k], 1))
BoundsFit(e) == e.set.optimize => Ordered(e, e.given.lower, e.given.upper, "control", e.ctimes) /\ Ordered(e, e.given.clower, e.given.cupper, "clower", GTimes(e))
(* the boundary data cover the times computed; at the start they may be needed for the report *)
Bounded == { c \in net : Len(c.pts) > 0 }
Before(c, t) == FLe(FSub(c.pts[1], "1e-9"), t)
Past(c, t) == FLe(t, FAdd(c.pts[Len(c.pts)], "1e-9"))
CoversSteps(e) == \A c \in Bounded : Before(c, e.rep.times[2]) /\ Past(c, e.set.end)
CoversAll(e) == \A c \in Bounded : Before(c, e.set.start) /\ Past(c, e.set.end)
(* there is a pressure to constrain at every constrained node *)
Constrainable(e) == e.set.optimize => \A c \in net : Constraints(c) > 0 => Ends(net, c) # {}
IsValid(e) == Constrainable(e) /\ SetOf(e.broken) \cap Needed(e) = {} /\ GridsPossible(e) /\ DataFine(e) /\ BoundsFit(e) /\ CoversSteps(e)
(* -------- time grids -------- *)
Gaps(t) == [k \in 1..(Len(t) - 1) |-> FSub(t[k + 1], t[k])]
RECURSIVE MaxOf(_), MinOf(_)
MaxOf(q) == IF Len(q) = 1 THEN q[1] ELSE FMax(q[1], MaxOf(Tail(q)))
MinOf(q) == IF Len(q) = 1 THEN q[1] ELSE FMin(q[1], MinOf(Tail(q)))
GridOf(t) == [ok |-> TRUE, n |-> Len(t), first |-> t[1], last |-> t[Len(t)], mingap |-> MinOf(Gaps(t)), maxgap |-> MaxOf(Gaps(t)), pts |-> t, reported |-> Len(t), m |-> 1]
Request(e) == [start |-> e.set.start, end |-> e.set.end, delta |-> e.set.delta, number |-> e.set.cnumber, cs |-> e.set.cs, cdelta |-> e.set.cdelta]
GridsRight(e) == SIM(Request(e), GridOf(e.rep.times)) /\ (HasControls => CONTROL(Request(e), GridOf(e.ctimes)))
(* -------- what a good result is -------- *)
Stochastic == \E c \in net : c.type = "StochasticPQnode"
Solved(e) == \A k \in 2..Len(e.rep.times) : Stochastic \/ FLe(e.rep.res[k], FMul(e.set.tol, "1.000001"))
StartsRight(e) ==
  /\ \A c \in Needs(net, "initial") : Right(num, c, EntryOf(e.given.initial, c.id), "initial", <<>>, Len(e.rep.init), e.rep.init)
  /\ FCloseSeq(e.rep.states[1], e.rep.init, "1e-12", "1e-12")
Total(e) == IF Len(e.ctimes) = 0 THEN 0 ELSE Len(e.rep.cvals) \div Len(e.ctimes)
CPos(e, c, k) == (k - 1) * Total(e) + num[c.id].c[1] + 1
Rows1(e, c) == [k \in 1..Len(e.ctimes) |-> <<e.rep.cvals[CPos(e, c, k)]>>]
ControlsUsed(e) ==
  \A c \in net : Controls(c) > 0 =>
    /\ ~e.set.optimize => Right(num, c, EntryOf(e.given.control, c.id), "control", e.ctimes, Total(e), e.rep.cvals)
    /\ \A k \in 1..Len(e.rep.times) :
         FClose(e.rep.cat[k][num[c.id].c[1] + 1], At(e.ctimes, Rows1(e, c), e.rep.times[k], 1), "1e-10", "1e-11")
Same1(a, b) == FClose(a, b, "1e-9", "2e-12")
StatesSaved(e, d) == Complete(net, num, e.rep.times, e.rep.states, d.states)
ControlsSaved(e, d) ==
  LET S == { c \in net : Controls(c) > 0 } IN
  /\ ListsExactly(d.controls, S)
  /\ \A c \in S :
       LET r == d.controls[CHOOSE k \in Listing(d.controls, c.id) : TRUE] IN
       /\ Len(r.data) = Len(e.ctimes)
       /\ \A k \in 1..Len(e.ctimes) : /\ Same1(r.data[k].time, e.ctimes[k]) /\ Len(r.data[k].values) = 1
                                      /\ FEq(r.data[k].values[1], e.rep.cvals[CPos(e, c, k)])
Slack(b) == FMul("1e-6", FMax(1, FAbs(b)))
Bound(file, c, t) == LET d == EntryOf(file, c.id) IN At(d.pts, d.vals, t, 1)
WithinBounds(e) ==
  \A c \in net : Controls(c) > 0 => \A k \in 1..Len(e.ctimes) :
    LET u == e.rep.cvals[CPos(e, c, k)] lo == Bound(e.given.lower, c, e.ctimes[k]) hi == Bound(e.given.upper, c, e.ctimes[k]) IN
    FLe(FSub(lo, Slack(lo)), u) /\ FLe(u, FAdd(hi, Slack(hi)))
(* -------- what is reported about the optimum -------- *)
CSet == { c \in net : Constraints(c) > 0 }
(* the constrained value is the pressure in bar at the node *)
ConstraintValues(e) ==
  \A c \in CSet : \A k \in 2..Len(e.rep.times) :
    LET v == e.rep.cons[k][num[c.id].q[1] + 1] IN
    \E end \in Ends(net, c) : FClose(v, EndPressure(net, num, e.rep.states[k], end), "1e-6", "1e-7")
RECURSIVE MaxSet(_)
MaxSet(q) == IF q = <<>> THEN FNum(0) ELSE FMax(FMax(FNum(0), Head(q)), MaxSet(Tail(q)))
SeqOf(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => q[i] # q[j]
Violations(e, upper) ==
  LET cs == SeqOf(CSet) n == Len(cs)
      ix == ConstraintIndices(Len(e.rep.times), IF e.set.every <= 0 THEN 1 ELSE e.set.every) IN
  [j \in 1..(n * Len(ix)) |->
     LET c == cs[1 + ((j - 1) % n)] k == ix[1 + ((j - 1) \div n)] + 1 t == e.rep.times[k] v == e.rep.cons[k][num[c.id].q[1] + 1] IN
     IF upper THEN FSub(v, Bound(e.given.cupper, c, t)) ELSE FSub(Bound(e.given.clower, c, t), v)]
Weight(t, i) == IF i < Len(t) THEN FMul("0.5", FSub(t[i + 1], t[i - 1])) ELSE FMul("0.5", FSub(t[i], t[i - 1]))
Integral(t, f) == FSum([i \in 1..(Len(t) - 1) |-> FMul(Weight(t, i + 1), f[i + 1])])
(* the cost of a compressor is the square of its pressure difference *)
CostAt(e, k) == LET S == { c \in net : c.type = "Compressorstation" } q == SeqOf(S)
                IN FSum([j \in 1..Cardinality(S) |-> FMul(e.rep.cat[k][num[q[j].id].c[1] + 1], e.rep.cat[k][num[q[j].id].c[1] + 1])])
CostsRight(e) == \A k \in 2..Len(e.rep.times) : FClose(e.rep.costs[k], CostAt(e, k), "1e-9", "1e-9")
Printed(s, v, atol) == s # "" /\ FClose(s, v, atol, "2e-5")
Reported(e) ==
  LET cost == Integral(e.rep.times, e.rep.costs) pen == Integral(e.rep.times, e.rep.pens) IN
  /\ Printed(e.printed.cost, cost, "1e-6") /\ Printed(e.printed.penalty, pen, "1e-6") /\ Printed(e.printed.objective, FAdd(cost, pen), "1e-6")
  /\ Printed(e.printed.lower, MaxSet(Violations(e, FALSE)), "1e-9") /\ Printed(e.printed.upper, MaxSet(Violations(e, TRUE)), "1e-9")
(* -------- one output directory -------- *)
Path(p) == "problem/" \o p
ResultNames(e) == {"states.json"} \cup (IF e.set.optimize THEN {"controls.json"} ELSE {})
FullCopy(e, d) ==
  /\ DOMAIN d.tree = {"problem"} \cup { Path(p) : p \in DOMAIN e.problem } \cup ResultNames(e)
  /\ \A p \in DOMAIN e.problem : d.tree[Path(p)] = e.problem[p]
GoodResult(e, d) ==
  /\ FullCopy(e, d)
  /\ d.states_sound /\ StatesSaved(e, d)
  /\ e.set.optimize => d.controls_sound /\ ControlsSaved(e, d)
HasResult(d) == d.states_there \/ d.controls_there
(* -------- one call of the program, or several at the same time -------- *)
(* an optimum satisfies the constraints, unless the run says that it found none *)
Feasible(e) == e.gave_up \/ (FLe(MaxSet(Violations(e, FALSE)), "1e-3") /\ FLe(MaxSet(Violations(e, TRUE)), "1e-3"))
Optimum(e) == e.set.optimize => WithinBounds(e) /\ ConstraintValues(e) /\ CostsRight(e) /\ (Len(e.status) = 1 => Reported(e) /\ Feasible(e))
Good(e) == GridsRight(e) /\ StartsRight(e) /\ ControlsUsed(e) /\ Solved(e) /\ Optimum(e)
Version(e) == IF ~IsValid(e) THEN "bad" ELSE IF (e.plain /\ CoversAll(e) /\ (e.set.optimize => HasControls)) \/ (e.rep.simulated /\ \E k \in 1..Len(e.status) : e.status[k] = 0) THEN "good" ELSE "hard"
(* what an output directory holds, in terms of Run *)
Holds(e, d, v) ==
  [copy |-> IF "problem" \notin DOMAIN d.tree THEN "none" ELSE IF FullCopy(e, d) THEN v ELSE "part",
   result |-> IF ~HasResult(d) THEN "none" ELSE IF v = "good" /\ Good(e) /\ GoodResult(e, d) THEN v ELSE "part"]
Place(d) == "output/" \o d.name
(* the runs of a call, with the directories they made: those that succeeded
   made the ones with results; a run may fail before it has a directory *)
RECURSIVE Sorted1(_, _, _)
Sorted1(e, k, filled) == IF k > Len(e.news) THEN <<>> ELSE (IF HasResult(e.news[k]) = filled THEN <<k>> ELSE <<>>) \o Sorted1(e, k + 1, filled)
Directories(e) == Sorted1(e, 1, TRUE) \o Sorted1(e, 1, FALSE)
Ended(e) ==
  LET n == Len(e.status) v == Version(e) ds == Directories(e)
      ok == { k \in 1..n : e.status[k] = 0 }
      rank(k) == IF k \in ok THEN Cardinality({ j \in ok : j <= k }) ELSE Cardinality(ok) + Cardinality({ j \in 1..k : j \notin ok })
      id(k) == Cardinality(DOMAIN phase) + k
      ids == { id(k) : k \in 1..n }
      nr(i) == i - Cardinality(DOMAIN phase)
      place(k) == IF rank(k) <= Len(ds) THEN Place(e.news[ds[rank(k)]]) ELSE "nowhere" \o ToString(id(k))
      new == { Place(e.news[k]) : k \in 1..Len(e.news) } \cup { place(k) : k \in 1..n }
      what(p) == IF \E k \in 1..Len(e.news) : Place(e.news[k]) = p THEN Holds(e, e.news[CHOOSE k \in 1..Len(e.news) : Place(e.news[k]) = p], v)
                 ELSE [copy |-> "none", result |-> "none"]
  IN /\ Len(e.news) <= n /\ DOMAIN dirs \cap new = {}
     /\ problem' = v
     /\ phase' = [i \in DOMAIN phase \cup ids |-> IF i \in DOMAIN phase THEN phase[i] ELSE IF nr(i) \in ok THEN "done" ELSE "failed"]
     /\ seen' = [i \in DOMAIN phase \cup ids |-> IF i \in DOMAIN phase THEN seen[i] ELSE v]
     /\ mine' = [i \in DOMAIN phase \cup ids |-> IF i \in DOMAIN phase THEN mine[i] ELSE place(nr(i))]
     /\ hurt' = IF e.faults > 0 THEN hurt \cup ids ELSE hurt
     /\ dirs' = [p \in DOMAIN dirs \cup new |-> IF p \in DOMAIN dirs THEN dirs[p] ELSE what(p)]
Call(e) ==
  /\ e.after = e.before                            \* the problem and earlier outputs are untouched
  /\ \A k \in 1..Len(e.status) : e.status[k] # 999  \* no run died
  /\ Ended(e)
  /\ R!OwnPlace' /\ R!Complete' /\ R!NothingWritten'
  (* a run on a sound disk fails only if it must *)
  /\ \A k \in 1..Len(e.status) : e.status[k] # 0 /\ e.faults = 0 => problem' # "good"
Fresh == problem' = "" /\ dirs' = <<>> /\ phase' = <<>> /\ mine' = <<>> /\ seen' = <<>> /\ hurt' = {}
Step(e) ==
  \/ e.ev = "Net" /\ e.ok /\ FirstBuild(e) /\ Fresh
  \/ e.ev = "Net" /\ ~e.ok /\ net' = SetOf(e.given) /\ num' = <<>> /\ sid' = e.s /\ Fresh
  \/ e.ev = "Run" /\ Same /\ Call(e)
  \/ e.ev = "Refer" /\ Same /\ e.status = <<0, 0>> /\ UNCHANGED uvars  \* schemas were generated and references inserted
Init == NInit /\ log = <<>> /\ last = <<>> /\ given = <<>> /\ vec = <<>> /\ rest = <<>> /\ status = ""
        /\ problem = "" /\ dirs = <<>> /\ phase = <<>> /\ mine = <<>> /\ seen = <<>> /\ hurt = {}
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l]) /\ UNCHANGED <<log, last, dvars>>
Spec == Init /\ [][Next]_<<nvars, log, last, dvars, uvars>>
=============================================================================
