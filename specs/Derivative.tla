----------------------------- MODULE Derivative -----------------------------
(* When a matrix is the derivative of a vector function at a point x: column  *)
(* j agrees with the fourth-order difference quotient of samples of the       *)
(* function at distance -2h, -h, h, 2h, up to the rounding of the samples.    *)
EXTENDS Integers, Sequences, Flt
Quotient(p2, p1, m1, m2, h) ==
  FDiv(FSum(<<FNeg(p2), FMul(8, p1), FMul(-8, m1), m2>>), FMul(12, h))
Eps == "2.3e-16"
(* the size of the terms that make up row i of the function *)
RowSize(M, i, x, f) == FAdd(FAbs(f), FSum([j \in 1..Len(x) |-> FAbs(FMul(M[i][j], x[j]))]))
(* d: [M, h, p2, p1, m1, m2] for an argument x, the samples indexed [column][row] *)
(* others(i): terms of row i that depend on other arguments only *)
IsDerivativeAmong(d, x, rows, rtol, ulps, others(_)) ==
  /\ \A i \in 1..rows :
       LET size == IF Len(x) = 0 THEN "0" ELSE FAdd(others(i), RowSize(d.M, i, x, d.p1[1][i]))
           noise == FMul(FMul(ulps, Eps), size) IN
       \A j \in 1..Len(x) :
         LET a == d.M[i][j] q == Quotient(d.p2[j][i], d.p1[j][i], d.m1[j][i], d.m2[j][i], d.h[j]) IN
         FLe(FAbs(FSub(a, q)), FAdd(FMul(rtol, FAbs(a)), FDiv(noise, FAbs(d.h[j]))))
IsDerivative(d, x, rows, rtol, ulps) == LET none(i) == "0" IN IsDerivativeAmong(d, x, rows, rtol, ulps, none)
(* however the matrix is produced, it is the same *)
OneMatrix(d) == /\ \A k \in {"refilled", "transposed", "trefilled"} : FCloseMat(d[k], d.M, "0", "0")
                /\ \A k \in 2..4 : d.nnz[k] = d.nnz[1]
=============================================================================
