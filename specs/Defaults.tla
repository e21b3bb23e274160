------------------------------ MODULE Defaults ------------------------------
(* Component data, defaults and schemas. A JSON value is a record tagged with *)
(* its kind: object (members m), array (elements e), number, string, bool     *)
(* (value v) or null. A schema says of which kind a value must be:            *)
(*   [kind |-> "object", props, req, closed]   [kind |-> "array", item, min,  *)
(*   max (-1: any), has (x coordinates that must occur)]                      *)
(*   [kind |-> "number" | "string" | "unit"]                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Flt
Empty == [k |-> "object", m |-> [x \in {} |-> 0]]
Num(v) == [k |-> "number", v |-> v]
Str(v) == [k |-> "string", v |-> v]
ObjOf(m) == [k |-> "object", m |-> m]
NumberS == [kind |-> "number"]
StringS == [kind |-> "string"]
UnitS == [kind |-> "unit"]
ObjectS(props, req) == [kind |-> "object", props |-> props, req |-> req, closed |-> FALSE]
ClosedS(props, req) == [kind |-> "object", props |-> props, req |-> req, closed |-> TRUE]
ArrayS(item, min, max) == [kind |-> "array", item |-> item, min |-> min, max |-> max, has |-> <<>>]
PointsS(item, min, max, has) == [kind |-> "array", item |-> item, min |-> min, max |-> max, has |-> has]
LengthUnits == {"m", "km", "cm", "mm", "dm"}
IsObj(v) == v.k = "object"
Keys(v) == DOMAIN v.m

(* ---- which values a schema allows ---- *)
RECURSIVE Valid(_, _)
Valid(v, s) ==
  CASE s.kind = "number" -> v.k = "number"
    [] s.kind = "string" -> v.k = "string"
    [] s.kind = "unit" -> v.k = "string" /\ v.v \in LengthUnits
    [] s.kind = "array" ->
         /\ v.k = "array" /\ Len(v.e) >= s.min /\ (s.max = -1 \/ Len(v.e) <= s.max)
         /\ \A i \in 1..Len(v.e) : Valid(v.e[i], s.item)
         /\ \A j \in 1..Len(s.has) : \E i \in 1..Len(v.e) : FEq(v.e[i].m["x"].v, s.has[j])
    [] s.kind = "object" ->
         /\ IsObj(v) /\ s.req \subseteq Keys(v)
         /\ \A n \in Keys(v) : IF n \in DOMAIN s.props THEN Valid(v.m[n], s.props[n]) ELSE ~s.closed

(* ---- defaults: the keys must be known, objects must be objects ---- *)
RECURSIVE DefaultsOk(_, _)
DefaultsOk(d, s) ==
  /\ IsObj(d) /\ Keys(d) \subseteq DOMAIN s.props
  /\ \A n \in Keys(d) : s.props[n].kind = "object" => DefaultsOk(d.m[n], s.props[n])
(* every default on its own is a complete value of its kind *)
Complete(d, s) == \A n \in Keys(d) : Valid(d.m[n], s.props[n])
(* ... or at least nothing in it is of the wrong kind *)
RECURSIVE Sound(_, _)
Sound(d, s) == \A n \in Keys(d) :
  IF s.props[n].kind = "object" THEN IsObj(d.m[n]) /\ Sound(d.m[n], s.props[n]) ELSE Valid(d.m[n], s.props[n])
(* missing keys are filled in, also inside of objects that are given in part;
   what is given stays *)
RECURSIVE Fill(_, _, _)
Fill(v, d, s) ==
  IF ~IsObj(v) THEN v
  ELSE ObjOf([n \in Keys(v) \cup Keys(d) |->
         IF n \notin Keys(v) THEN d.m[n]
         ELSE IF n \in DOMAIN s.props /\ s.props[n].kind = "object" /\ n \in Keys(d) THEN Fill(v.m[n], d.m[n], s.props[n])
         ELSE v.m[n]])
(* a component can be made from an entry: nothing else enters *)
Buildable(v, d, s) == DefaultsOk(d, s) /\ Valid(Fill(v, d, s), s)

(* ---- the schema published for data files: defaulted keys may be missing ---- *)
RECURSIVE Published(_, _)
Published(d, s) ==
  [s EXCEPT !.req = @ \ Keys(d),
            !.props = [n \in DOMAIN @ |-> IF n \in Keys(d) /\ @[n].kind = "object" THEN Published(d.m[n], @[n]) ELSE @[n]]]

(* ---- making components one after the other with one configuration ---- *)
VARIABLES config, made
fvars == <<config, made>>
Configure(d) == config' = d /\ made' = <<>>
Make(v, s) ==
  /\ made' = Append(made, [from |-> v, ok |-> Buildable(v, config, s), to |-> IF DefaultsOk(config, s) THEN Fill(v, config, s) ELSE v])
  /\ UNCHANGED config
=============================================================================
