------------------------------ MODULE Components ------------------------------
(* The data each component type has: in the topology file, and of boundary    *)
(* values, initial values and controls.                                       *)
EXTENDS Defaults
NodeTypes == {"Source", "Sink", "ConstraintSink", "Innode", "Pressureboundarynode",
              "PQnode", "PVnode", "Vphinode", "StochasticPQnode", "ExternalPowerplant"}
EdgeTypes == {"Pipe", "Shortpipe", "Compressorstation", "Controlvalve", "Transmissionline", "Gaspowerconnection"}
Types == NodeTypes \cup EdgeTypes
PowerTypes == {"PQnode", "PVnode", "Vphinode", "StochasticPQnode", "ExternalPowerplant"}
FlowTypes == {"Source", "Sink", "ConstraintSink", "Pressureboundarynode"}
ShortTypes == {"Shortpipe", "Compressorstation", "Controlvalve"}
BoundaryTypes == PowerTypes \cup FlowTypes
StateTypes == PowerTypes \cup ShortTypes \cup {"Pipe", "Gaspowerconnection"}
ControlTypes == {"Compressorstation", "Controlvalve"}
Series(key, w, min, max, has) ==
  ObjectS([id |-> StringS,
           data |-> PointsS(ObjectS((key :> NumberS) @@ ("values" :> ArrayS(NumberS, w, w)), {key, "values"}), min, max, has)],
          {"id", "data"})
WithMore(s, more, req) == [s EXCEPT !.props = @ @@ more, !.req = @ \cup req]
BoundaryS(t) ==
  LET s == Series("time", IF t \in PowerTypes THEN 2 ELSE 1, 1, -1, <<>>) IN
  IF t = "StochasticPQnode" THEN WithMore(s, "seed" :> ArrayS(NumberS, 8, 8), {}) ELSE s
InitialS(t) ==
  CASE t = "Pipe" -> Series("x", 2, 0, -1, <<"0">>)
    [] t \in ShortTypes -> Series("x", 2, 2, 2, <<"0", "1">>)
    [] OTHER -> Series("x", 2, 1, 1, <<"0">>)
ControlS(t) == Series("time", 1, 1, -1, <<>>)
Length == ClosedS([value |-> NumberS, unit |-> UnitS], {"value", "unit"})
Numbers(names) == [n \in names |-> NumberS]
Own(t) ==
  CASE t \in PowerTypes \cup {"Transmissionline"} -> {"B", "G"}
    [] t = "Gaspowerconnection" -> {"gas2power_q_coeff", "power2gas_q_coeff"}
    [] t = "Pipe" -> {"desired_delta_x"}
    [] OTHER -> {}
Walk == {"stability_parameter", "cut_off_factor", "sigma_P", "theta_P", "sigma_Q", "theta_Q", "number_of_stochastic_steps"}
(* without the data of other files *)
TopologyS(t) ==
  LET base == ObjectS("id" :> StringS, {"id"})
      edge == IF t \in EdgeTypes THEN WithMore(base, [from |-> StringS, to |-> StringS], {"from", "to"}) ELSE base
      own == WithMore(edge, Numbers(Own(t)), Own(t)) IN
  CASE t = "StochasticPQnode" -> WithMore(own, Numbers(Walk), Walk)
    [] t = "Pipe" -> WithMore(own, [length |-> Length, diameter |-> Length, roughness |-> Length, balancelaw |-> StringS, scheme |-> StringS],
                              {"length", "diameter", "roughness", "balancelaw", "scheme"})
    [] OTHER -> own
(* with the boundary values, as the component is built *)
FullS(t) ==
  IF t \in BoundaryTypes THEN WithMore(TopologyS(t), "boundary_values" :> BoundaryS(t), {"boundary_values"}) ELSE TopologyS(t)
Part(d, keys) == ObjOf([n \in Keys(d) \cap keys |-> d.m[n]])
BoundaryDefaults(d) == IF "boundary_values" \in Keys(d) THEN d.m["boundary_values"] ELSE Empty
OfType(c, t) == IF t \in Keys(c) THEN c.m[t] ELSE Empty
(* the published schema of an entry of the given file *)
FileS(file, t, d) ==
  CASE file = "topology" -> Published(Part(d, DOMAIN TopologyS(t).props), TopologyS(t))
    [] file = "boundary" -> Published(BoundaryDefaults(d), BoundaryS(t))
    [] file = "initial" -> InitialS(t)
    [] file = "control" -> ControlS(t)
ListedIn(file) ==
  CASE file = "topology" -> Types [] file = "boundary" -> BoundaryTypes
    [] file = "initial" -> StateTypes [] file = "control" -> ControlTypes
=============================================================================
