-------------------------- MODULE OptimizerTrace --------------------------
(* Set-ups and call sequences recorded from the real optimizer (or through the   *)
(* interior point solver's call-backs). Every NewX carries a trajectory of       *)
(* states computed elsewhere; it is used only after checking that it solves the  *)
(* time steps.                                                                   *)
EXTENDS Optimizer, OptProblem, TraceBase
VARIABLES s, u, X, D
vars == <<l, cur, statesOf, derivOf, s, u, X, D>>
Init == TraceStart /\ OInit /\ s = <<>> /\ u = <<>> /\ X = <<>> /\ D = <<>>
Close(a, b) == FClose(a, b, "1e-6", "1e-6")
CloseSeq(a, b) == FCloseSeq(a, b, "1e-6", "1e-6")
Setup(e) ==
  /\ e.ev = "Setup"
  /\ e.ok = Consistent(e)
  /\ s' = e /\ u' = <<>> /\ X' = <<>> /\ D' = <<>>
  /\ cur' = Nothing /\ statesOf' = Nothing /\ derivOf' = Nothing
NewX(e) ==
  /\ e.ev = "NewX"
  /\ u' = e.u
  /\ IF e.ref = <<>> THEN X' = <<>> /\ D' = <<>>
     ELSE /\ Trajectory(s.P, s.st, e.ref, s.init, s.ct, e.u, "1e-11")
          /\ X' = e.ref
          /\ D' = IF DerivativeFails(s, e.u) THEN <<>> ELSE Sensitivities(s, e.u, e.ref)
  /\ Announce(e.u) /\ UNCHANGED s
(* entries given by positions form this matrix *)
MatrixIs(e, J, rows, cols) ==
  LET n == Len(e.values) IN
  /\ Len(e.rows) = n /\ Len(e.cols) = n
  /\ \A k \in 1..n : e.rows[k] \in 0..(rows - 1) /\ e.cols[k] \in 0..(cols - 1)
  /\ Cardinality({ <<e.rows[k], e.cols[k]>> : k \in 1..n }) = n
  /\ \A k \in 1..n : Close(e.values[k], J[e.rows[k] + 1][e.cols[k] + 1])
  /\ LET there == { <<e.rows[k], e.cols[k]>> : k \in 1..n } IN
       \A r \in 1..rows : \A c \in 1..cols : <<r - 1, c - 1>> \in there \/ Close(J[r][c], "0")
NControls == s.P.m * Len(s.ct)
NConstraints == s.P.q * Len(s.gt)
Value(e) ==
  CASE e.q = "obj" -> Close(e.values[1], ObjectiveOf(s, u, X))
    [] e.q = "cost" -> Close(e.values[1], CostOf(s, u, X))
    [] e.q = "pen" -> Close(e.values[1], PenaltyOf(s, u, X))
    [] e.q = "cons" -> CloseSeq(e.values, ConstraintsOf(s, u, X))
    [] e.q = "grad" -> CloseSeq(e.values, GradientOf(s, u, X, D))
    [] e.q = "jac" -> MatrixIs(e, JacobianOf(s, u, X, D), NConstraints, NControls)
Ask(e) ==
  /\ e.ev = "Ask" /\ ~e.threw /\ UNCHANGED <<s, u, X, D>>
  /\ FCloseSeq(e.u, u, "0", "0")
  /\ \/ e.ok /\ X # <<>> /\ Deliver(e.q) /\ Value(e)
     \/ ~e.ok /\ RefuseStates(e.q) 
        /\ IF s.cache = "mock" THEN e.simfailures > 0 ELSE SimulationFails(s, u)
     \/ ~e.ok /\ RefuseDerivative(e.q) /\ DerivativeFails(s, u)
Given(e) ==
  /\ e.ev = "Given" /\ ~e.threw /\ UNCHANGED <<s, u, X, D, cur, statesOf, derivOf>>
  /\ CASE e.what = "sizes" -> e.values = <<NControls, NConstraints>>
       [] e.what = "init" -> FCloseSeq(e.values, Resampled(s.ic, s.ct), "1e-12", "1e-12")
       [] e.what = "lower" -> FCloseSeq(e.values, Resampled(s.lb, s.ct), "1e-12", "1e-12")
       [] e.what = "upper" -> FCloseSeq(e.values, Resampled(s.ub, s.ct), "1e-12", "1e-12")
       [] e.what = "clower" -> FCloseSeq(e.values, Resampled(s.clb, s.gt), "1e-12", "1e-12")
       [] e.what = "cupper" -> FCloseSeq(e.values, Resampled(s.cub, s.gt), "1e-12", "1e-12")
(* the interior point solver is done: x is the solution, which need not be the   *)
(* point asked for last                                                          *)
Final(e) ==
  /\ e.ev = "Final" /\ ~e.threw /\ UNCHANGED <<s, u, X, D>>
  /\ cur' = Nothing /\ statesOf' = Nothing /\ derivOf' = Nothing
  /\ FCloseSeq(e.solution, e.x, "0", "0")
  /\ (e.ref # <<>> /\ ~e.failed) =>
       /\ Trajectory(s.P, s.st, e.ref, s.init, s.ct, e.x, "1e-11")
       /\ Close(e.objective, ObjectiveOf(s, e.x, e.ref))
       /\ Close(e.cost, CostOf(s, e.x, e.ref))
       /\ Close(e.penalty, PenaltyOf(s, e.x, e.ref))
       /\ (e.constraints # <<"unknown">> => CloseSeq(e.constraints, ConstraintsOf(s, e.x, e.ref)))
(* a complete run of the interior point solver *)
InBounds(x, lo, hi) == \A i \in 1..Len(x) : FLe(FSub(lo[i], "1e-6"), x[i]) /\ FLe(x[i], FAdd(hi[i], "1e-6"))
Optimized(e) ==
  /\ e.ev = "Optimized" /\ ~e.threw /\ UNCHANGED <<s, u, X, D, cur, statesOf, derivOf>>
  /\ Len(e.x) = NControls /\ InBounds(e.x, Resampled(s.lb, s.ct), Resampled(s.ub, s.ct))
  /\ e.ref # <<>>
  /\ Trajectory(s.P, s.st, e.ref, s.init, s.ct, e.x, "1e-11")
  /\ Close(e.objective, ObjectiveOf(s, e.x, e.ref))
  /\ Close(e.cost, CostOf(s, e.x, e.ref))
  /\ Close(e.penalty, PenaltyOf(s, e.x, e.ref))
  /\ (e.solved /\ s.P.q > 0) =>
       LET g == ConstraintsOf(s, e.x, e.ref) lo == Resampled(s.clb, s.gt) hi == Resampled(s.cub, s.gt)
       IN \A i \in 1..Len(g) : FLe(FSub(lo[i], "1e-4"), g[i]) /\ FLe(g[i], FAdd(hi[i], "1e-4"))
Step(e) == Setup(e) \/ NewX(e) \/ Ask(e) \/ Given(e) \/ Final(e) \/ Optimized(e)
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
=============================================================================
