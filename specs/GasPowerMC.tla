---------------------------- MODULE GasPowerMC ----------------------------
(* The conversion curve: the stated efficiencies outside the transition, and  *)
(* no jump of the curve or its slope anywhere. A walk along the flow axis.    *)
EXTENDS GasPower
CONSTANTS Coeffs, Far
VARIABLES c, q
Init == q = -Far /\ c \in { [ga |-> a, pa |-> b] : a, b \in Coeffs }
Next == q < Far /\ q' = q + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, q>>
Stated == /\ q >= Kappa => FClose(Generated(c, q), FMul(c.ga, q), "1e-12", "1e-12")
          /\ q <= -Kappa => FClose(Generated(c, q), FMul(c.pa, q), "1e-12", "1e-12")
          /\ q = 0 => FEq(Generated(c, q), 0)
(* near every q the curve is the line with slope DGenerated; the constant bounds the curvature *)
Step(h) == LET top == FMax(c.ga, c.pa) IN
  FLe(FAbs(FSub(FSub(Generated(c, FAdd(q, h)), Generated(c, q)), FMul(h, DGenerated(c, q)))), FMul(FMul(top, "0.05"), FMul(h, h)))
Differentiable == \A h \in {"1e-3", "-1e-3", "0.5", "-0.5"} : Step(h)
=============================================================================
