------------------------- MODULE TimeSteppingTrace -------------------------
(* Recorded simulations: Begin, then per attempt Prep and FirstEval (the first *)
(* evaluation of the equations in the attempt), then End. The constants of     *)
(* TimeStepping are variables here, one run after another.                     *)
EXTENDS MockProblem, TraceBase
VARIABLES run, step, attempt, preps, states, evald
vars == <<l, run, step, attempt, preps, states, evald>>
MaxAttempts(simplified, retries) == IF simplified THEN 2 * retries + 2 ELSE retries + 2
Init == TraceStart /\ run = [on |-> FALSE] /\ step = 0 /\ attempt = 0 /\ preps = 0 /\ states = <<>> /\ evald = FALSE
Mode(k) == IF k >= 1 /\ k <= Len(run.script) THEN run.script[k] ELSE "ok"
Ctl(i) == At(run.cpts, run.P.m, run.cvals, run.pts[i])
Same(a, b) == FCloseSeq(a, b, "1e-13", "1e-13")
(* the step in progress has been solved, with result x *)
(* (an attempt meant to fail at the derivative does not need it if already solved) *)
Solved(x) == /\ Mode(preps) = "ok" \/ (Mode(preps) = "sing" /\ FCloseSeq(x, states[step], "0", "0"))
             /\ Solves(run.P, run.pts[step], run.pts[step + 1], states[step], x, Ctl(step + 1), run.tol)
Begin(e) ==
  /\ e.ev = "Begin" /\ ~run.on
  /\ run' = [on |-> TRUE, P |-> e.P, tol |-> e.tol, retries |-> e.retries, simplified |-> e.simplified, pts |-> e.pts,
             init |-> e.init, cpts |-> e.cpts, cvals |-> e.cvals, script |-> e.script, maxit |-> e.maxit]
  /\ step' = 0 /\ attempt' = 0 /\ preps' = 0 /\ states' = <<e.init>> /\ evald' = FALSE
PrepNext(e) ==
  /\ step + 2 <= Len(run.pts)
  /\ FEq(e.tl, run.pts[step + 1]) /\ FEq(e.tn, run.pts[step + 2])
  /\ IF step = 0 THEN FCloseSeq(e.l, run.init, "0", "0") /\ UNCHANGED states
     ELSE Solved(e.l) /\ states' = Append(states, e.l)
  /\ Same(e.u, Ctl(step + 2))
  /\ step' = step + 1 /\ attempt' = 1
PrepRetry(e) ==
  /\ step > 0 /\ attempt < MaxAttempts(run.simplified, run.retries)
  /\ FEq(e.tl, run.pts[step]) /\ FEq(e.tn, run.pts[step + 1])
  /\ FCloseSeq(e.l, states[step], "0", "0") /\ Same(e.u, Ctl(step + 1))
  /\ attempt' = attempt + 1 /\ UNCHANGED <<step, states>>
Prep(e) == /\ e.ev = "Prep" /\ run.on
           /\ (PrepNext(e) \/ PrepRetry(e))
           /\ preps' = preps + 1 /\ evald' = FALSE /\ UNCHANGED run
FirstEval(e) ==
  /\ e.ev = "FirstEval" /\ run.on /\ step > 0
  /\ FEq(e.tl, run.pts[step]) /\ FEq(e.tn, run.pts[step + 1])
  /\ FCloseSeq(e.l, states[step], "0", "0")
  /\ FCloseSeq(e.x, states[step], "0", "0")
  /\ Same(e.u, Ctl(step + 1))
  /\ evald' = TRUE /\ UNCHANGED <<run, step, attempt, preps, states>>
EndOk(e) ==
  /\ e.ok /\ step = Len(run.pts) - 1
  /\ Len(e.states) = Len(run.pts) /\ FCloseSeq(e.pts, run.pts, "0", "0")
  /\ \A i \in 1..step : FCloseSeq(e.states[i], states[i], "0", "0")
  /\ Solved(e.states[step + 1])
(* scalar equations with growing left side, for which the damped iteration with *)
(* the derivative renewed in every iteration, as used in the last attempt,      *)
(* comes to the root with iterations to spare                                   *)
RECURSIVE Damped(_, _, _, _), Arrives(_, _, _)
Damped(f(_), y, dx, d) ==
  LET lam == dx
      z == FAdd(y, lam)
  IN IF FLt(FMul("0.5", FAbs(dx)), FAbs(FDiv(f(z), d))) /\ FLt("1e-9", FAbs(dx))
     THEN Damped(f, y, FMul("0.5", dx), d) ELSE z
Arrives(C, y, k) ==
  LET F(z) == Eq(run.P, C.tl, C.tn, C.l, <<z>>, C.u)[1]
      d == EqNew(run.P, C.tl, C.tn, C.l, <<y>>, C.u)[1][1]
  IN IF FLe(FAbs(F(y)), FMul("0.1", run.tol)) THEN TRUE
     ELSE IF k = 0 THEN FALSE
     ELSE Arrives(C, Damped(F, y, FNeg(FDiv(F(y), d)), d), k - 1)
Easy == /\ run.P.n = 1 /\ run.maxit >= 12 /\ run.P.m = 0
        /\ Arrives([tl |-> run.pts[step], tn |-> run.pts[step + 1], l |-> states[step], u |-> <<>>], states[step][1], run.maxit \div 2)
EndFail(e) ==
  /\ ~e.ok /\ step > 0 /\ (Mode(preps) = "ok" => ~Easy)
  /\ \/ attempt = MaxAttempts(run.simplified, run.retries) /\ Mode(preps) # "ok"
     \/ Mode(preps) = "sing"
     \/ attempt = MaxAttempts(run.simplified, run.retries) /\ "hard" \in DOMAIN run.P
End(e) == /\ e.ev = "End" /\ run.on /\ (EndOk(e) \/ EndFail(e))
          /\ run' = [on |-> FALSE] /\ UNCHANGED <<step, attempt, preps, states, evald>>
Step(e) == Begin(e) \/ Prep(e) \/ FirstEval(e) \/ End(e)
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
=============================================================================
