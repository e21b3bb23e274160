------------------------------ MODULE TraceBase ------------------------------
(* What all trace specifications share: the recorded events, the position and *)
(* the acceptance condition. Each trace specification says in Step(e) which   *)
(* event may come next, in terms of the actions of the specification it       *)
(* extends; events "Crash", "Timeout" and "Escaped" are never allowed.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Flt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TraceStart == l = 1 /\ PrintT("VT-TRACE-LOADED")
IsEv(e, name) == e.ev = name
Has(r, k) == k \in DOMAIN r
Accepted == /\ PrintT(<<"VT-REACHED", TLCGet("stats").diameter>>)
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
