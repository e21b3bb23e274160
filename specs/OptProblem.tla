----------------------------- MODULE OptProblem -----------------------------
(* The optimization problem over a MockProblem: s is the set-up (P, state       *)
(* times st, control times ct, constraint times gt, initial state init, the     *)
(* given controls and bounds ic, lb, ub, clb, cub as time series), u the vector *)
(* of all controls, X the sequence of states at the state times.                *)
EXTENDS MockProblem
Sorted(p) == \A i \in 2..Len(p) : FLe(p[i - 1], p[i])
SameStructure(a, b) == a.w = b.w /\ Len(a.pts) = Len(b.pts) /\ \A i \in 1..Len(a.pts) : FEq(a.pts[i], b.pts[i])
IsStateTime(s, t) == \E i \in 2..Len(s.st) : FEq(s.st[i], t)
(* sizes, structures, order, coverage *)
Consistent(s) ==
  /\ Len(s.init) = s.P.n
  /\ s.ic.w = s.P.m /\ SameStructure(s.ic, s.lb) /\ SameStructure(s.lb, s.ub)
  /\ SameStructure(s.clb, s.cub) /\ s.clb.w = s.P.q
  /\ Len(s.st) >= 1 /\ Len(s.ct) >= 1
  /\ Sorted(s.st) /\ Sorted(s.ct) /\ Sorted(s.gt)
  /\ FLe(s.ct[1], s.st[1])
  /\ FLe(s.st[Len(s.st)], FAdd(s.ct[Len(s.ct)], "1e-10"))
  /\ \A i \in 1..Len(s.gt) : IsStateTime(s, s.gt[i])
U(s, u, t) == At(s.ct, s.P.m, u, t)
(* trapezoidal rule over the state times, the fixed first one left out *)
Weight(s, i) ==
  IF i < Len(s.st) THEN FMul("0.5", FSub(s.st[i + 1], s.st[i - 1])) ELSE FMul("0.5", FSub(s.st[i], s.st[i - 1]))
Integral(s, u, X, f(_,_,_)) ==
  FSum([i \in 1..(Len(s.st) - 1) |-> FMul(Weight(s, i + 1), f(s.st[i + 1], X[i + 1], U(s, u, s.st[i + 1])))])
CostOf(s, u, X) == Integral(s, u, X, LAMBDA t, x, v : Cost(s.P, t, x, v))
PenaltyOf(s, u, X) == Integral(s, u, X, LAMBDA t, x, v : Penalty(s.P, t, x, v))
ObjectiveOf(s, u, X) == FAdd(CostOf(s, u, X), PenaltyOf(s, u, X))
StateIndex(s, t) == CHOOSE i \in 2..Len(s.st) : FEq(s.st[i], t)
ConstraintsOf(s, u, X) ==
  [k \in 1..(Len(s.gt) * s.P.q) |->
    LET i == 1 + ((k - 1) \div s.P.q)
    IN Con(s.P, s.gt[i], X[StateIndex(s, s.gt[i])], U(s, u, s.gt[i]))[1 + ((k - 1) % s.P.q)]]
(* how the control at time t depends on the vector of all controls: m x (m*|ct|) *)
Lambda(s, j, t) == (* weight of control time j at t *)
  LET ct == s.ct n == Len(ct) IN
  IF FLe(ct[n], t) THEN (IF j = n THEN "1" ELSE "0")
  ELSE IF FLe(t, ct[1]) THEN (IF j = 1 THEN "1" ELSE "0")
  ELSE LET i == CHOOSE h \in 2..n : FLe(t, ct[h]) /\ \A g \in 1..(h - 1) : FLt(ct[g], t)
           lam == FDiv(FSub(t, ct[i - 1]), FSub(ct[i], ct[i - 1]))
       IN IF j = i THEN lam ELSE IF j = i - 1 THEN FSub(1, lam) ELSE "0"
DU(s, t) ==
  LET m == s.P.m
      lam == [j \in 1..Len(s.ct) |-> Lambda(s, j, t)]
  IN [r \in 1..m |-> [c \in 1..(m * Len(s.ct)) |-> IF (c - 1) % m = r - 1 THEN lam[1 + ((c - 1) \div m)] ELSE "0"]]
Zero(r, c) == [i \in 1..r |-> [k \in 1..c |-> "0"]]
(* sensitivities of all states, by differentiating the time steps forwards *)
RECURSIVE Sens(_, _, _, _)
Sens(s, u, X, D) ==
  LET i == Len(D) + 1 IN
  IF i > Len(s.st) THEN D
  ELSE LET v == U(s, u, s.st[i])
           rhs == FMatAdd(FMatMul(EqLast(s.P, s.st[i - 1], s.st[i], X[i - 1], X[i], v), D[i - 1]), FMatMul(EqCtl(s.P, s.st[i - 1], s.st[i], X[i - 1], X[i], v), DU(s, s.st[i])))
       IN Sens(s, u, X, Append(D, FMatScale("-1", FSolveM(EqNew(s.P, s.st[i - 1], s.st[i], X[i - 1], X[i], v), rhs))))
Sensitivities(s, u, X) ==
  IF s.P.m = 0 THEN <<>> ELSE Sens(s, u, X, <<Zero(s.P.n, s.P.m * Len(s.ct))>>)
(* total derivatives *)
RECURSIVE GradSum(_, _, _, _, _)
GradSum(s, u, X, D, i) ==
  IF i = 1 THEN Zero(1, s.P.m * Len(s.ct))
  ELSE LET t == s.st[i] v == U(s, u, t) IN
    FMatAdd(GradSum(s, u, X, D, i - 1),
      FMatScale(Weight(s, i), FMatAdd(FMatMul(<<ObjX(s.P, t, X[i], v)>>, D[i]), FMatMul(<<ObjU(s.P, t, X[i], v)>>, DU(s, t)))))
GradientOf(s, u, X, D) == IF s.P.m = 0 THEN <<>> ELSE GradSum(s, u, X, D, Len(s.st))[1]
JacobianRows(s, u, X, D, t) ==
  LET i == StateIndex(s, t) v == U(s, u, t) IN
    FMatAdd(FMatMul(ConX(s.P, t, X[i], v), D[i]), FMatMul(ConU(s.P, t, X[i], v), DU(s, t)))
JacobianOf(s, u, X, D) ==
  IF s.P.m = 0 \/ s.P.q = 0 THEN <<>>
  ELSE LET blocks == [k \in 1..Len(s.gt) |-> JacobianRows(s, u, X, D, s.gt[k])]
       IN [r \in 1..(Len(s.gt) * s.P.q) |-> blocks[1 + ((r - 1) \div s.P.q)][1 + ((r - 1) % s.P.q)]]
(* a series resampled to other times *)
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Resampled(series, pts) == Flat([i \in 1..Len(pts) |-> At(series.pts, series.w, series.vals, pts[i])])
SimulationFails(s, u) == FailsSomewhere(s.P, s.st, s.ct, u)
DerivativeFails(s, u) == \E i \in 2..Len(s.st) : PSingular(s.P, U(s, u, s.st[i]))
=============================================================================
