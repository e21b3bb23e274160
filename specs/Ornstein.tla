------------------------------ MODULE Ornstein ------------------------------
(* The fluctuating demand of a stochastic node. In each time step a quantity   *)
(* walks from its value at the last saved state in Steps equal substeps        *)
(* towards the mean, disturbed by normal samples, and is kept within the       *)
(* relative deviation c of a mean that is not zero. A parameter record has the *)
(* fields a (stability), c, theta, sigma and N (requested substeps).           *)
EXTENDS Integers, Sequences, Flt
(* substeps small enough for stability: theta times the substep stays below a *)
Stable(p, dt) == FLt(FMul(p.theta, FDiv(dt, p.N)), p.a)
Steps(p, dt) == IF p.N > 0 /\ Stable(p, dt) THEN p.N ELSE FCeil(FDiv(FMul(p.theta, dt), p.a)) + 1
Permitted(p) == FLt(0, p.a) /\ FLt(p.a, 2) /\ FLe(0, p.theta) /\ p.N >= 0
Within(x, mu, c) == LET lo == FMul(FSub(1, c), mu) hi == FMul(FAdd(1, c), mu) IN
  FLe(FMin(lo, hi), x) /\ FLe(x, FMax(lo, hi))
Limit(x, mu, c) == LET lo == FMul(FSub(1, c), mu) hi == FMul(FAdd(1, c), mu) IN
  IF FEq(mu, 0) THEN x ELSE FMax(FMin(lo, hi), FMin(x, FMax(lo, hi)))
(* one substep of width h; z is a sample of the standard normal distribution *)
Sub(v, p, mu, h, z) ==
  Limit(FAdd(FAdd(v, FMul(FMul(p.theta, FSub(mu, v)), h)), FMul(p.sigma, FMul(z, FSqrt(h)))), mu, p.c)
RECURSIVE Walk(_, _, _, _, _, _)
(* the substeps taken with the samples zs[i+1], zs[i+2], ... *)
Walk(v, p, mu, h, zs, n) == IF n = 0 THEN v ELSE Sub(Walk(v, p, mu, h, zs, n - 1), p, mu, h, zs[n])

VARIABLES last,  \* the value at the last saved state
          cur,   \* the value drawn for the current step
          mean, done, phase
ovars == <<last, cur, mean, done, phase>>
Start(v) == last = v /\ cur = v /\ mean = "0" /\ done = 0 /\ phase = "saved"
(* a step is prepared, possibly again after it could not be solved *)
Prepare(m) == phase \in {"saved", "drawn"} /\ phase' = "drawing" /\ cur' = last /\ mean' = m /\ done' = 0 /\ UNCHANGED last
Substep(p, dt, z) == /\ phase = "drawing" /\ done < Steps(p, dt)
                     /\ cur' = Sub(cur, p, mean, FDiv(dt, Steps(p, dt)), z) /\ done' = done + 1
                     /\ phase' = (IF done' = Steps(p, dt) THEN "drawn" ELSE "drawing") /\ UNCHANGED <<last, mean>>
(* the equations of the step may be evaluated any number of times *)
Evaluate == phase = "drawn" /\ UNCHANGED ovars
(* the step is solved: the node's power is what was drawn *)
Solve == phase = "drawn" /\ last' = cur /\ phase' = "saved" /\ UNCHANGED <<cur, mean, done>>
=============================================================================
