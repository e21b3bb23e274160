------------------------------ MODULE GasLawMC ------------------------------
(* The law itself on a grid of states: conversions are inverse, friction has  *)
(* no jump in value or slope where the regimes meet, always opposes the flow, *)
(* and a steady frictionless uniform state is an equilibrium of the scheme.   *)
EXTENDS GasLaw, TLC
CONSTANTS Diameters, Roughness, MaxRe, StepRe
VARIABLES d, k, re
Init == d \in Diameters /\ k \in Roughness /\ re = StepRe
Next == re < MaxRe /\ re' = re + StepRe /\ UNCHANGED <<d, k>>
Spec == Init /\ [][Next]_<<d, k, re>>
Q(x) == FDiv(x, Reynolds(d, 1))
Friction(x) == FDiv(Resistance(d, k, Q(x)), Sq(Q(x)))
Slope(x, h) == FDiv(FSub(Friction(FAdd(x, h)), Friction(x)), h)
Smooth == /\ re > 1000 => FLe(FAbs(FSub(Friction(FAdd(re, "0.01")), Friction(FSub(re, "0.01")))), FMul("1e-3", Friction(re)))
          /\ re > 1000 => FLe(FAbs(FSub(Slope(re, 2), Slope(re, -2))), "3e-7")
Opposes == /\ FLt("0", Resistance(d, k, Q(re))) /\ FLt(Resistance(d, k, FNeg(Q(re))), "0")
           /\ FClose(Resistance(d, k, Q(re)), FNeg(Resistance(d, k, FNeg(Q(re)))), "0", "1e-14")
Inverse == FClose(DensityOfBar(PressureBar(FDiv(re, 50))), FDiv(re, 50), "0", "1e-12")
Steady == \A i \in 1..2 :
  LET x == <<FDiv(re, 50), FNum("0")>> t == CellTerms(d, k, 1000, 60, x, x, x, x, i) IN FLe(FAbs(FSum(t)), FMul("1e-15", SumAbs(t)))
=============================================================================
