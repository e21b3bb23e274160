----------------------------- MODULE OrnsteinMC -----------------------------
EXTENDS Ornstein, TLC
CONSTANTS As, Cs, Thetas, Sigmas, Ns, Means, Firsts, Zs, MaxSteps
VARIABLES p, dt, steps, before
vars == <<ovars, p, dt, steps, before>>
Init == /\ p \in [a : As, c : Cs, theta : Thetas, sigma : Sigmas, N : Ns] /\ (p.N > 0 \/ FLt(0, p.theta)) /\ dt = "1"
        /\ \E v \in Firsts : Start(v) /\ before = v
        /\ steps = 0
Begin == steps < MaxSteps /\ \E m \in Means : Prepare(m) /\ steps' = steps + 1 /\ before' = last /\ UNCHANGED <<p, dt>>
Draw == \E z \in Zs : Substep(p, dt, z) /\ before' = cur /\ UNCHANGED <<p, dt, steps>>
Look == Evaluate /\ UNCHANGED <<p, dt, steps, before>>
Accept == Solve /\ UNCHANGED <<p, dt, steps, before>>
Next == Begin \/ Draw \/ Look \/ Accept
Spec == Init /\ [][Next]_vars
Distance(x) == FAbs(FSub(x, mean))
Bounded == done > 0 /\ ~FEq(mean, 0) => Within(cur, mean, p.c)
EnoughSteps == FLt(FMul(p.theta, FDiv(dt, Steps(p, dt))), p.a) /\ Steps(p, dt) >= p.N /\ Steps(p, dt) >= 1
(* without noise a substep never leads away from the mean *)
Reverts == FEq(p.sigma, 0) /\ done > 0 => FLe(Distance(cur), Distance(before))
(* what was drawn is what evaluations see, until the next step is prepared *)
Kept == [][phase = "drawn" => cur' = cur \/ phase' = "drawing"]_vars
FromSaved == phase = "drawing" /\ done = 0 => FEq(cur, last)
=============================================================================
