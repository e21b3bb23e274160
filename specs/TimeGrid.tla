------------------------------ MODULE TimeGrid ------------------------------
(* Which time grids may be built for a request. A request is a record with     *)
(* start, end, delta, number; an answer has ok, n, first, last and the largest *)
(* and smallest gap. Over the reals, up to rounding.                           *)
EXTENDS Integers, Sequences, Flt
Span(r) == FSub(r.end, r.start)
Tol(r) == FMul("1e-14", FMax(1, FMax(FAbs(r.start), FMax(FAbs(r.end), FAbs(Span(r))))))
(* the smallest number of points whose gaps do not exceed delta; a quotient    *)
(* within 1e-9 of an integer may be rounded either way *)
Smallest(n, span, delta) ==
  /\ n >= 2
  /\ FLe(FMul(span, "0.999999999"), FMul(n - 1, delta))
  /\ (n = 2 \/ FLt(FMul(n - 2, delta), FMul(span, "1.000000001")))
Spread(a, start, end, tol) ==
  /\ FEq(a.first, start)
  /\ FLe(FAbs(FSub(a.last, end)), tol)
  /\ FLt(0, a.mingap)
  /\ LET d == FDiv(FSub(end, start), a.n - 1) IN
       FLe(FAbs(FSub(a.mingap, d)), tol) /\ FLe(FAbs(FSub(a.maxgap, d)), tol)
  /\ (Len(a.pts) > 0 => (Len(a.pts) = a.n /\ \A i \in 1..(Len(a.pts) - 1) : FLt(a.pts[i], a.pts[i + 1])))
PossibleSDE(start, end, delta) == FLt(start, end) /\ FLt(0, delta)
PossibleSNE(start, end, n) == FLt(start, end) /\ n >= 2
PossibleSDN(delta, n) == n >= 1 /\ FLt(0, delta)
SDE(r, delta, a) ==
  /\ a.ok = PossibleSDE(r.start, r.end, delta)
  /\ (a.ok => (Smallest(a.n, Span(r), delta) /\ Spread(a, r.start, r.end, Tol(r))))
SNE(r, n, a) ==
  /\ a.ok = PossibleSNE(r.start, r.end, n)
  /\ (a.ok => (a.n = n /\ Spread(a, r.start, r.end, Tol(r))))
SDN(r, a) ==
  /\ a.ok = PossibleSDN(r.delta, r.number)
  /\ (a.ok =>
       /\ a.n = r.number
       /\ FEq(a.first, r.start)
       /\ LET e == FAdd(r.start, FMul(r.number - 1, r.delta)) IN
            IF a.n = 1 THEN FEq(a.last, r.start)
            ELSE Spread(a, r.start, e, FMul("1e-14", FMax(1, FMax(FAbs(r.start), FAbs(e))))))
(* the times of the simulated states *)
SIM(r, a) ==
  /\ SDE(r, r.delta, a)
  /\ (a.ok => Smallest(a.reported, Span(r), r.delta))
(* the times of the controls: m controls, cs says what the settings contain *)
CONTROL(r, a) ==
  IF ~PossibleSDE(r.start, r.end, r.delta) THEN TRUE
  ELSE IF a.m = 0 THEN a.ok /\ a.n = 0
  ELSE CASE r.cs = "none" -> SIM([r EXCEPT !.number = 0], [a EXCEPT !.reported = a.n])
         [] r.cs = "delta" -> SDE(r, r.cdelta, a)
         [] r.cs = "number" -> SNE(r, r.number, a)
         [] OTHER -> ~a.ok
(* constraints are checked at every k-th state time and at the end *)
ConstraintIndices(n, k) ==
  LET c == IF (n - 1) % k = 0 THEN (n - 1) \div k ELSE (n - 1) \div k + 1
  IN [i \in 1..c |-> IF i = c THEN n - 1 ELSE 1 + k * (i - 1)]
=============================================================================
