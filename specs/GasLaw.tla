------------------------------- MODULE GasLaw -------------------------------
(* Isothermal Euler equations with friction for a pipe of diameter D and     *)
(* roughness k; the variables are the density rho and the volumetric flow q  *)
(* at standard conditions, pressures are in bar at the interface.            *)
EXTENDS Integers, Sequences, Flt
Mul3(a, b, c) == FMul(FMul(a, b), c)
Sq(x) == FMul(x, x)
Bar == FNum("1e5")
Rho0 == FNum("0.785")
Pi == FNum("3.141592653589793")
Eta == FNum("1e-5")
Pcrit == FMul("46.4512", Bar)
Alpha == FSub(FDiv("0.257", Pcrit), FDiv(FMul("0.533", "192.033"), FMul(Pcrit, "283.15")))
C2 == FDiv(Mul3("1.01325", Bar, "283.15"), Mul3("1.005", "273.15", Rho0))
Area(D) == FMul(Pi, Sq(FMul("0.5", D)))
Pressure(rho) == FDiv(FMul(C2, rho), FSub(1, Mul3(Alpha, C2, rho)))
Density(p) == FDiv(p, FMul(C2, FAdd(1, FMul(Alpha, p))))
PressureBar(rho) == FDiv(Pressure(rho), Bar)
DensityOfBar(p) == Density(FMul(p, Bar))
Reynolds(D, q) == Mul3(FDiv(D, FMul(Area(D), Eta)), Rho0, FAbs(q))
(* Darcy friction factor: laminar, Swamee-Jain, in between the cubic that
   continues both of them continuously differentiably *)
Arg(D, k, Re) == FAdd(FDiv(k, FMul("3.7", D)), FDiv("5.74", FPow(Re, "0.9")))
SwameeJain(D, k, Re) == FDiv("0.25", Sq(FLog10(Arg(D, k, Re))))
DSwameeJain(D, k, Re) ==
  LET a == Arg(D, k, Re) g == FLog10(a)
      da == FMul(FMul("-5.74", "0.9"), FPow(Re, "-1.9")) IN
  FMul(FDiv("-0.5", Mul3(g, g, g)), FDiv(da, FMul(a, "2.302585092994046")))
Transition(D, k, Re) ==
  LET a == 2000 b == 4000
      t == FDiv(FSub(Re, a), FSub(b, a)) s == FSub(1, t) w == FSub(b, a)
      h00 == FMul(FAdd(1, FMul(2, t)), Sq(s))
      h10 == FMul(t, Sq(s))
      h01 == FMul(Sq(t), FSub(3, FMul(2, t)))
      h11 == FMul(Sq(t), FSub(t, 1)) IN
  FSum(<<FMul(h00, FDiv(64, a)), Mul3(h10, w, FDiv(-64, FMul(a, a))),
         FMul(h01, SwameeJain(D, k, b)), Mul3(h11, w, DSwameeJain(D, k, b))>>)
(* lambda * |q| * q *)
Resistance(D, k, q) ==
  LET Re == Reynolds(D, q) IN
  IF FLt(Re, 2000) THEN FDiv(FMul(64, q), FDiv(Reynolds(D, 1), 1))
  ELSE FMul(IF FLe(Re, 4000) THEN Transition(D, k, Re) ELSE SwameeJain(D, k, Re), FMul(FAbs(q), q))
Flux(D, rho, q) == <<Mul3(Rho0, q, FDiv(1, Area(D))),
                     FAdd(FMul(FDiv(Area(D), Rho0), Pressure(rho)), FDiv(Mul3(FDiv(Rho0, Area(D)), q, q), rho))>>
Source(D, k, rho, q) == <<FNum("0"), FDiv(FNeg(FMul(FDiv(Rho0, Mul3(2, Area(D), D)), Resistance(D, k, q))), rho)>>
(* one cell of the implicit box scheme; terms are listed so that their size is known *)
CellTerms(D, k, dx, dt, lastL, lastR, newL, newR, i) ==
  LET fL == Flux(D, newL[1], newL[2])[i] fR == Flux(D, newR[1], newR[2])[i]
      sL == Source(D, k, newL[1], newL[2])[i] sR == Source(D, k, newR[1], newR[2])[i]
      h == FMul("0.5", dt) g == FDiv(dt, dx) IN
  <<FMul("0.5", newL[i]), FMul("0.5", newR[i]), FMul("-0.5", lastL[i]), FMul("-0.5", lastR[i]),
    FNeg(FMul(g, fL)), FMul(g, fR), FNeg(FMul(h, sL)), FNeg(FMul(h, sR))>>
SumAbs(s) == FSum([j \in 1..Len(s) |-> FAbs(s[j])])
=============================================================================
