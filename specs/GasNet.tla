------------------------------- MODULE GasNet -------------------------------
(* Equations at the junctions and edges of the gas part of a network. new and *)
(* last are state vectors (from 1), num the numbering (from 0).              *)
EXTENDS Network, GasLaw
StateAt(v, i) == <<v[i + 1], v[i + 2]>>
(* pressure in bar and flow at an end of an edge *)
EndPressure(net, num, v, end) ==
  LET x == v[EndState(num, end) + 1] IN
  IF By(net, end[1]).type = "Pipe" THEN PressureBar(x) ELSE FNum(x)
EndFlow(num, v, end) == FNum(v[EndState(num, end) + 2])
SetSum(S, f(_)) == LET RECURSIVE go(_)
                       go(T) == IF T = {} THEN FNum("0") ELSE LET x == CHOOSE y \in T : TRUE IN FAdd(f(x), go(T \ {x}))
                   IN go(S)
(* what a node prescribes: sources feed in, sinks take out *)
Inflow(n, t) == CASE n.type = "Innode" -> FNum("0")
                  [] n.type = "Source" -> At(n.pts, n.vals, t, 1)
                  [] n.type \in {"Sink", "ConstraintSink"} -> FNeg(At(n.pts, n.vals, t, 1))
(* flows leaving through the edges minus what is fed in *)
Balance(net, num, v, n, t) ==
  LET f(e) == FMul(e[2], EndFlow(num, v, e)) IN FSub(SetSum(Ends(net, n), f), Inflow(n, t))
FlowScale(net, num, v, n, t) ==
  LET f(e) == FAbs(EndFlow(num, v, e)) IN FAdd(1, FAdd(SetSum(Ends(net, n), f), FAbs(Inflow(n, t))))
Connected(V, E) ==
  LET RECURSIVE grow(_)
      grow(S) == LET T == S \cup { x \in V : \E y \in S : <<x, y>> \in E \/ <<y, x>> \in E } IN IF T = S THEN S ELSE grow(T)
  IN V = {} \/ grow({CHOOSE x \in V : TRUE}) = V
Small(x, tol) == FLe(FAbs(x), tol)
AbsClose(a, b, tol) == Small(FSub(FAbs(a), FAbs(b)), tol)
(* the junction conditions themselves *)
JunctionHolds(net, num, v, n, t, tol) ==
  IF n.type = "Pressureboundarynode"
  THEN \A e \in Ends(net, n) : Small(FSub(EndPressure(net, num, v, e), At(n.pts, n.vals, t, 1)), tol)
  ELSE /\ \A e, f \in Ends(net, n) : Small(FSub(EndPressure(net, num, v, e), EndPressure(net, num, v, f)), tol)
       /\ Small(Balance(net, num, v, n, t), tol)
(* admissible residuals r of the rows R of a node: they vanish exactly if the
   junction conditions hold, whatever order and sign the rows have *)
NodeRows(net, num, v, n, t, r, R, tol) ==
  LET ends == Ends(net, n)
      p == [e \in ends |-> EndPressure(net, num, v, e)] IN
  /\ Cardinality(R) = Cardinality(ends)
  /\ IF n.type = "Pressureboundarynode"
     THEN LET b == At(n.pts, n.vals, t, 1)
              fits(i, e) == AbsClose(r[i + 1], FSub(p[e], b), tol) IN
          /\ \A e \in ends : \E i \in R : fits(i, e)
          /\ \A i \in R : \E e \in ends : fits(i, e)
     ELSE LET bal == Balance(net, num, v, n, t)
              ftol == FMul(tol, FlowScale(net, num, v, n, t))
              pairs(i) == { x \in ends \X ends : x[1] # x[2] /\ AbsClose(r[i + 1], FSub(p[x[1]], p[x[2]]), tol) } IN
          \E b \in R : /\ AbsClose(r[b + 1], bal, ftol)
                       /\ \A i \in R \ {b} : pairs(i) # {}
                       /\ Connected(ends, UNION { pairs(i) : i \in R \ {b} })
Dx(c) == FDiv(c.L, Points(c) - 1)
(* the interior rows of a gas edge *)
EdgeRows(num, last, new, control, c, t0, t1, r, rtol) ==
  LET s == StateStart(num, c.id) IN
  IF c.type = "Pipe" THEN
    \A j \in 0..(Points(c) - 2) : \A i \in 1..2 :
      LET terms == CellTerms(c.D, c.k, Dx(c), FSub(t1, t0), StateAt(last, s + 2 * j), StateAt(last, s + 2 * j + 2),
                             StateAt(new, s + 2 * j), StateAt(new, s + 2 * j + 2), i) IN
      AbsClose(r[s + 2 * j + i + 1], FSum(terms), FMul(rtol, SumAbs(terms)))
  ELSE
    LET u == IF c.type = "Shortpipe" THEN FNum("0") ELSE FNum(control[num[c.id].c[1] + 1])
        dp == FSub(new[s + 3], new[s + 1])
        dq == FSub(new[s + 4], new[s + 2])
        law == CASE c.type = "Shortpipe" -> dp [] c.type = "Compressorstation" -> FSub(dp, u) [] OTHER -> FAdd(dp, u)
        scale == SumAbs(<<1, new[s + 1], new[s + 2], new[s + 3], new[s + 4], u>>) IN
    /\ AbsClose(r[s + 2], law, FMul(rtol, scale))
    /\ AbsClose(r[s + 3], dq, FMul(rtol, scale))
(* laws at a solution: compressors raise, valves lower the pressure *)
ShortHolds(num, v, control, c, tol) ==
  LET s == StateStart(num, c.id)
      u == IF c.type = "Shortpipe" THEN FNum("0") ELSE FNum(control[num[c.id].c[1] + 1])
      up == IF c.type = "Controlvalve" THEN FNeg(u) ELSE u IN
  /\ Small(FSub(v[s + 3], FAdd(v[s + 1], up)), tol)
  /\ Small(FSub(v[s + 4], v[s + 2]), tol)
=============================================================================
