------------------------------- MODULE Newton -------------------------------
(* What one call of the equation solver may answer. c describes the call:      *)
(* P, tl, tn, l, u, x0; a the answer: threw, success, residual, iterations, x. *)
EXTENDS MockProblem
ResAt(c, x) == FNorm(Eq(c.P, c.tl, c.tn, c.l, x, c.u))
Solved(r, tol) == FLe(r, Slack(tol))
SurelySolved(r, tol) == FLe(FAdd(r, "1e-12"), FMul(tol, "0.999999"))
(* regular linear equations: the generator only makes dominant matrices *)
RegularLinear(c) == /\ PLinear(c.P) /\ ~PFails(c.P, c.u) /\ ~PSingular(c.P, c.u)
                    /\ \A i \in 1..c.P.n : ~FEq(c.P.S[i][i], 0)
Answer(c, a, tol, maxit) ==
  LET r0 == ResAt(c, c.x0)
      r == ResAt(c, a.x)
  IN /\ (a.threw => a.kind = "numerical")
     /\ (~a.threw =>
          /\ 0 <= a.iterations
          /\ a.iterations <= maxit
          /\ (a.success =>
               /\ Solved(r, tol)
               /\ FClose(a.residual, r, "1e-12", "1e-6")
               /\ (a.iterations = 0 => (Solved(r0, tol) /\ FCloseSeq(a.x, c.x0, "0", "0"))))
          /\ (~a.success =>
               /\ (a.iterations = maxit \/ ~FFinite(r))
               /\ ~SurelySolved(r, tol)))
     /\ (SurelySolved(r0, tol) => (~a.threw /\ a.success /\ a.iterations = 0))
     /\ ((RegularLinear(c) /\ maxit >= 1) => (~a.threw /\ a.success /\ a.iterations <= 1))
=============================================================================
