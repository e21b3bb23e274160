------------------------------ MODULE PowerNet ------------------------------
(* AC power flow: what each kind of power node demands of the voltages and    *)
(* angles in a grid, whatever its layout and the orientation of its lines.    *)
EXTENDS Network
Volt(num, v, id) == v[StateStart(num, id) + 1]
Phi(num, v, id) == v[StateStart(num, id) + 2]
Seq2(S) == LET RECURSIVE go(_)
               go(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o go(T \ {x})
           IN go(S)
(* the terms of the active and reactive power fed into the grid at node n *)
PTerms(net, num, v, n) ==
  LET Vi == Volt(num, v, n.id) pi == Phi(num, v, n.id) ls == Seq2(Lines(net, n)) IN
  <<FMul(n.G, FMul(Vi, Vi))>> \o
  [k \in 1..(2 * Len(ls)) |->
     LET e == ls[(k + 1) \div 2] o == Other(net, e, n).id d == FSub(pi, Phi(num, v, o)) VV == FMul(Vi, Volt(num, v, o)) IN
     IF k % 2 = 1 THEN FMul(VV, FMul(e.G, FCos(d))) ELSE FMul(VV, FMul(e.B, FSin(d)))]
QTerms(net, num, v, n) ==
  LET Vi == Volt(num, v, n.id) pi == Phi(num, v, n.id) ls == Seq2(Lines(net, n)) IN
  <<FNeg(FMul(n.B, FMul(Vi, Vi)))>> \o
  [k \in 1..(2 * Len(ls)) |->
     LET e == ls[(k + 1) \div 2] o == Other(net, e, n).id d == FSub(pi, Phi(num, v, o)) VV == FMul(Vi, Volt(num, v, o)) IN
     IF k % 2 = 1 THEN FMul(VV, FMul(e.G, FSin(d))) ELSE FNeg(FMul(VV, FMul(e.B, FCos(d))))]
Mass(s) == FAdd(1, FSum([k \in 1..Len(s) |-> FAbs(s[k])]))
(* the two demands of a node: terms that have to sum up to zero; cur is the
   power a stochastic node drew for this step *)
Demands(net, num, v, n, t, cur) ==
  LET b(k) == IF n.type = "StochasticPQnode" THEN cur[k] ELSE At(n.pts, n.vals, t, k)
      P == PTerms(net, num, v, n) Q == QTerms(net, num, v, n) IN
  CASE n.type \in {"PQnode", "StochasticPQnode"} -> << Append(P, FNeg(b(1))), Append(Q, FNeg(b(2))) >>
    [] n.type = "PVnode" -> << Append(P, FNeg(b(1))), <<Volt(num, v, n.id), FNeg(b(2))>> >>
    [] n.type \in {"Vphinode", "ExternalPowerplant"} ->
         << <<Volt(num, v, n.id), FNeg(b(1))>>, <<Phi(num, v, n.id), FNeg(b(2))>> >>
Fits(x, terms, tol) == FLe(FAbs(FSub(FAbs(x), FAbs(FSum(terms)))), FMul(tol, Mass(terms)))
(* residuals in either order and with either sign *)
PowerRows(net, num, v, n, t, cur, r, R, tol) ==
  LET d == Demands(net, num, v, n, t, cur) IN
  \E i, j \in R : i # j /\ R = {i, j} /\ Fits(r[i + 1], d[1], tol) /\ Fits(r[j + 1], d[2], tol)
PowerHolds(net, num, v, n, t, cur, tol, rtol) ==
  LET d == Demands(net, num, v, n, t, cur) IN
  \A k \in 1..2 : FLe(FAbs(FSum(d[k])), FAdd(tol, FMul(rtol, Mass(d[k]))))
(* prescribed quantities are reported as prescribed, the others as computed *)
Reports(net, num, v, n, t, d, tol) ==
  LET P == PTerms(net, num, v, n) Q == QTerms(net, num, v, n)
      b(k) == At(n.pts, n.vals, t, k)
      is(x, terms) == FLe(FAbs(FSub(x, FSum(terms))), FMul(tol, Mass(terms))) IN
  /\ FClose(d.time, t, "0", "1e-14")
  /\ FEq(d.V, Volt(num, v, n.id)) /\ FEq(d.phi, Phi(num, v, n.id))
  /\ CASE n.type = "PQnode" -> is(d.P, <<b(1)>>) /\ is(d.Q, <<b(2)>>)
       [] n.type = "PVnode" -> is(d.P, <<b(1)>>) /\ is(d.Q, Q)
       [] n.type = "StochasticPQnode" ->
            /\ is(d.P, P) /\ is(d.Q, Q)
            /\ is(d.P_deviation, Append(P, FNeg(b(1)))) /\ is(d.Q_deviation, Append(Q, FNeg(b(2))))
       [] OTHER -> is(d.P, P) /\ is(d.Q, Q)
=============================================================================
