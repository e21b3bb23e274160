---------------------------- MODULE MockProblem ----------------------------
(* A discretised control problem given by numbers: equations, cost, penalty    *)
(* and constraints with their derivatives. harness/mock.hpp computes the same  *)
(* formulas in C++; everything else in these specifications treats a problem   *)
(* as these functions only.                                                    *)
EXTENDS Integers, Sequences, Flt
U0(P, u) == IF P.m > 0 THEN u[1] ELSE "0"
Sq(a) == FMul(a, a)
Cube(a) == FMul(a, FMul(a, a))
PFails(P, u) == "fail" \in DOMAIN P /\ P.m > 0 /\ FLt(P.fail, u[1])
PSingular(P, u) == "sing" \in DOMAIN P /\ P.m > 0 /\ FLt(P.sing, u[1])
PLinear(P) == \A i \in 1..P.n : FEq(P.a[i], 0)
Eq(P, tl, tn, lst, x, u) ==
  [i \in 1..P.n |->
    IF i = P.n /\ PFails(P, u) THEN "nan" ELSE
    FSum(<< FDot(P.S[i], x), FMul(P.a[i], Cube(x[i])),
            FNeg(FDot(P.A[i], lst)), FNeg(FMul(P.p[i], Sq(lst[i]))),
            FNeg(FDot(P.B[i], u)), FNeg(FMul(P.b2[i], Sq(U0(P, u)))),
            FNeg(FMul(P.d[i], FSub(tn, tl))),
            FMul(FSub(tn, tl), FAdd(FMul(P.h[i], x[i]), FMul(P.k[i], lst[i]))),
            FMul(P.xl[i], FMul(x[i], lst[i])), FMul(P.xu[i], FMul(x[i], U0(P, u))), FMul(P.lu[i], FMul(lst[i], U0(P, u))) >>)]
EqNew(P, tl, tn, lst, x, u) == [i \in 1..P.n |-> [k \in 1..P.n |->
    IF i = k THEN FSum(<<P.S[i][k], FMul(FMul(3, P.a[i]), Sq(x[i])), FMul(P.h[i], FSub(tn, tl)), FMul(P.xl[i], lst[i]), FMul(P.xu[i], U0(P, u))>>)
    ELSE P.S[i][k]]]
EqLast(P, tl, tn, lst, x, u) == [i \in 1..P.n |-> [k \in 1..P.n |->
    IF i = k THEN FSum(<<FNeg(P.A[i][k]), FNeg(FMul(FMul(2, P.p[i]), lst[i])), FMul(P.k[i], FSub(tn, tl)), FMul(P.xl[i], x[i]), FMul(P.lu[i], U0(P, u))>>)
    ELSE FNeg(P.A[i][k])]]
EqCtl(P, tl, tn, lst, x, u) == [i \in 1..P.n |-> [k \in 1..P.m |->
    IF k = 1 THEN FSum(<<FNeg(P.B[i][k]), FNeg(FMul(FMul(2, P.b2[i]), u[1])), FMul(P.xu[i], x[i]), FMul(P.lu[i], lst[i])>>) ELSE FNeg(P.B[i][k])]]
Cost(P, t, x, u) ==
  FSum(<< FSum([k \in 1..P.n |-> FMul(P.cq[k], Sq(x[k]))]), FDot(P.cr, x), FMul(P.ct, FMul(t, x[1])),
          FSum([k \in 1..P.m |-> FMul(P.cs[k], Sq(u[k]))]), FMul(P.cm, FMul(x[1], U0(P, u))) >>)
Penalty(P, t, x, u) ==
  FSum(<< FSum([k \in 1..P.n |-> FMul(P.pq[k], Sq(x[k]))]), FDot(P.pr, x), FMul(P.pt, FMul(t, x[1])),
          FSum([k \in 1..P.m |-> FMul(P.ps[k], Sq(u[k]))]) >>)
(* derivatives of cost + penalty *)
ObjX(P, t, x, u) == [k \in 1..P.n |->
  FSum(<< FMul(FMul(2, P.cq[k]), x[k]), P.cr[k], FMul(FMul(2, P.pq[k]), x[k]), P.pr[k],
          IF k = 1 THEN FSum(<<FMul(P.ct, t), FMul(P.pt, t), FMul(P.cm, U0(P, u))>>) ELSE "0" >>)]
ObjU(P, t, x, u) == [k \in 1..P.m |->
  FSum(<< FMul(FMul(2, P.cs[k]), u[k]), FMul(FMul(2, P.ps[k]), u[k]),
          IF k = 1 THEN FMul(P.cm, x[1]) ELSE "0" >>)]
Con(P, t, x, u) == [i \in 1..P.q |->
  FSum(<< FDot(P.C[i], x), FMul(P.ce[i], Sq(x[1])), FMul(P.cf[i], t), FDot(P.D[i], u),
          FMul(P.cg[i], FMul(U0(P, u), x[1])), FMul(P.ch[i], FMul(t, x[1])) >>)]
ConX(P, t, x, u) == [i \in 1..P.q |-> [k \in 1..P.n |->
  IF k = 1 THEN FSum(<<P.C[i][k], FMul(FMul(2, P.ce[i]), x[1]), FMul(P.cg[i], U0(P, u)), FMul(P.ch[i], t)>>) ELSE P.C[i][k]]]
ConU(P, t, x, u) == [i \in 1..P.q |-> [k \in 1..P.m |->
  IF k = 1 THEN FAdd(P.D[i][k], FMul(P.cg[i], x[1])) ELSE P.D[i][k]]]
(* piecewise linear interpolation of a flat sequence of rows, for times inside *)
Row(v, w, i) == [k \in 1..w |-> v[(i - 1) * w + k]]
At(pts, w, v, t) ==
  IF w = 0 THEN <<>>
  ELSE LET n == Len(pts) IN
    IF FLe(pts[n], t) THEN Row(v, w, n)
    ELSE IF FLe(t, pts[1]) THEN Row(v, w, 1)
    ELSE LET i == CHOOSE j \in 2..n : FLe(t, pts[j]) /\ \A h \in 1..(j - 1) : FLt(pts[h], t)
             lam == FDiv(FSub(t, pts[i - 1]), FSub(pts[i], pts[i - 1]))
         IN [k \in 1..w |-> FAdd(FMul(FSub(1, lam), v[(i - 2) * w + k]), FMul(lam, v[(i - 1) * w + k]))]
(* x solves the step from (tl, lst) to tn with control u within tol *)
Slack(tol) == FAdd(FMul(tol, "1.000001"), "1e-12")
Solves(P, tl, tn, lst, x, u, tol) == FLe(FNorm(Eq(P, tl, tn, lst, x, u)), Slack(tol))
(* states solve all steps over pts for the controls *)
Trajectory(P, pts, states, init, cpts, cvals, tol) ==
  /\ Len(states) = Len(pts)
  /\ FCloseSeq(states[1], init, "0", "0")
  /\ \A i \in 2..Len(pts) :
       Solves(P, pts[i - 1], pts[i], states[i - 1], states[i], At(cpts, P.m, cvals, pts[i]), tol)
FailsSomewhere(P, pts, cpts, cvals) ==
  \E i \in 2..Len(pts) : LET u == At(cpts, P.m, cvals, pts[i]) IN PFails(P, u) \/ PSingular(P, u)
=============================================================================
