------------------------------ MODULE GasPower ------------------------------
(* The coupling of gas and power: burning gas (positive flow) and generating  *)
(* gas (negative flow) have different efficiencies, with a smooth transition. *)
EXTENDS GasNet, PowerNet
Kappa == 60
Generated(c, q) ==
  LET d == FSub(c.pa, c.ga) r == FDiv(q, Kappa) IN
  IF FLt(Kappa, q) THEN FMul(c.ga, q)
  ELSE IF FLt(q, FNeg(Kappa)) THEN FMul(c.pa, q)
  ELSE FMul(q, FSum(<<FMul("0.5", FAdd(c.ga, c.pa)), FMul("-0.75", FMul(d, r)), FMul("0.25", FMul(d, FMul(r, FMul(r, r))))>>))
DGenerated(c, q) ==
  LET d == FSub(c.pa, c.ga) r == FDiv(q, Kappa) IN
  IF FLt(Kappa, q) THEN FNum(c.ga)
  ELSE IF FLt(q, FNeg(Kappa)) THEN FNum(c.pa)
  ELSE FSum(<<FMul("0.5", FAdd(c.ga, c.pa)), FMul("-1.5", FMul(d, r)), FMul(d, FMul(r, FMul(r, r)))>>)
(* every coupling runs from a gas node to a plant, every plant has a coupling *)
Couples(net) ==
  /\ \A e \in net : e.type = "Gaspowerconnection" => By(net, e.to).type = "ExternalPowerplant"
  /\ \A n \in net : n.type = "ExternalPowerplant" => \E e \in net : e.type = "Gaspowerconnection" /\ n.id \in {e.from, e.to}
CouplingTerms(net, num, v, c) ==
  LET q == v[StateStart(num, c.id) + 2] IN
  PTerms(net, num, v, By(net, c.to)) \o <<FNeg(Generated(c, q))>>
=============================================================================
