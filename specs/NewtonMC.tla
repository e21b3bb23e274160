------------------------------ MODULE NewtonMC ------------------------------
(* The damped Newton iteration itself, run on scalar problems with and without *)
(* roots: it ends, and its verdict has the properties demanded in Newton.      *)
EXTENDS Newton, TLC
CONSTANTS Starts, MaxIts, Tol
Problems == {<<"2","0","3">>, <<"-1","1","0">>, <<"-1","1","0.1">>, <<"1","1","1">>, <<"0","1","0.5">>, <<"-2","0.5","-8">>, <<"0","0","1">>, <<"1e-9","0","1">>, <<"-1","1e-3","50">>, <<"0","nan","1">>}
VARIABLES c, maxit, pc, x, fx, it, lam, cand, fc, step
vars == <<c, maxit, pc, x, fx, it, lam, cand, fc, step>>
P1(S, a, b) == [n |-> 1, m |-> 0, q |-> 0, S |-> <<<<S>>>>, a |-> <<a>>, A |-> <<<<"0">>>>, p |-> <<"0">>,
                B |-> <<<<>>>>, b2 |-> <<"0">>, d |-> <<b>>, h |-> <<"0">>, k |-> <<"0">>, xl |-> <<"0">>, xu |-> <<"0">>, lu |-> <<"0">>]
F(y) == Eq(c.P, c.tl, c.tn, c.l, <<y>>, c.u)[1]
Slope(y) == EqNew(c.P, c.tl, c.tn, c.l, <<y>>, c.u)[1][1]
(* the factorised derivative is that at the start of the current iteration *)
Dx(y, f) == FNeg(FDiv(f, Slope(y)))
Init == \E p \in Problems, x0 \in Starts, k \in MaxIts :
  /\ c = [P |-> P1(p[1], p[2], p[3]), tl |-> "0", tn |-> "1", l |-> <<"0">>, u |-> <<>>, x0 |-> <<x0>>]
  /\ maxit = k
  /\ x = x0 /\ fx = F(x0) /\ it = 0 /\ pc = "loop" /\ lam = "1" /\ cand = x0 /\ fc = fx /\ step = "0"
Finish == /\ pc = "loop"
          /\ FLe(FAbs(fx), Tol) \/ it = maxit \/ FIsNaN(fx)
          /\ pc' = IF FLe(FAbs(fx), Tol) THEN "success" ELSE "failure"
          /\ UNCHANGED <<c, maxit, x, fx, it, lam, cand, fc, step>>
Direction == /\ pc = "loop" /\ ~FLe(FAbs(fx), Tol) /\ it < maxit /\ ~FIsNaN(fx)
             /\ IF FEq(Slope(x), 0)
                THEN pc' = "thrown" /\ UNCHANGED <<lam, cand, fc, step>>
                ELSE /\ step' = Dx(x, fx) /\ lam' = "1" /\ cand' = FAdd(x, step')
                     /\ fc' = F(cand') /\ pc' = "search"
             /\ UNCHANGED <<c, maxit, x, fx, it>>
TooLong == FLt(FMul(FSub(1, FMul("0.5", lam)), FAbs(step)), FAbs(Dx(x, fc)))
Halve == /\ pc = "search" /\ TooLong
         /\ IF FLt(FAbs(Dx(x, fc)), "1e-12") THEN pc' = "thrown" /\ UNCHANGED <<lam, cand, fc>>
            ELSE /\ lam' = FMul("0.5", lam) /\ cand' = FAdd(x, FMul(lam', step)) /\ fc' = F(cand') /\ UNCHANGED pc
         /\ UNCHANGED <<c, maxit, x, fx, it, step>>
Accept == /\ pc = "search" /\ ~TooLong
          /\ x' = cand /\ fx' = fc /\ it' = it + 1 /\ pc' = "loop"
          /\ UNCHANGED <<c, maxit, lam, cand, fc, step>>
Next == Finish \/ Direction \/ Halve \/ Accept
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ended == pc \in {"success", "failure", "thrown"}
Verdict == Ended => Answer(c, [threw |-> pc = "thrown", kind |-> "numerical", success |-> pc = "success",
                              residual |-> FAbs(fx), iterations |-> it, x |-> <<x>>], Tol, maxit)
Ends == <>Ended
=============================================================================
