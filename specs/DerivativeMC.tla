---------------------------- MODULE DerivativeMC ----------------------------
(* The criterion itself: for quadratic vector functions of two variables it   *)
(* accepts the derivative and refuses any matrix off by one in an entry.      *)
EXTENDS Derivative, TLC
CONSTANTS Coeff, Points
VARIABLES c, x, off
Init == c \in [1..2 -> [1..3 -> Coeff]] /\ x \in [1..2 -> Points] /\ off = <<0, 0, 0>>
Perturb == off[1] = 0 /\ \E i, j \in 1..2, s \in {1, -1} : off' = <<i, j, s>> /\ UNCHANGED <<c, x>>
Next == Perturb
Spec == Init /\ [][Next]_<<c, x, off>>
F(i, y) == FSum(<<FMul(c[i][1], FMul(y[1], y[1])), FMul(c[i][2], FMul(y[1], y[2])), FMul(c[i][3], y[2])>>)
D(i, j) == IF j = 1 THEN FAdd(FMul(FMul(2, c[i][1]), x[1]), FMul(c[i][2], x[2])) ELSE FAdd(FMul(c[i][2], x[1]), c[i][3])
H == "0.015625"
At(j, m) == [x EXCEPT ![j] = FAdd(x[j], FMul(m, H))]
Data == [M |-> [i \in 1..2 |-> [j \in 1..2 |-> IF off[1] = i /\ off[2] = j THEN FAdd(D(i, j), off[3]) ELSE D(i, j)]], h |-> <<H, H>>,
         p2 |-> [j \in 1..2 |-> [i \in 1..2 |-> F(i, At(j, 2))]], p1 |-> [j \in 1..2 |-> [i \in 1..2 |-> F(i, At(j, 1))]],
         m1 |-> [j \in 1..2 |-> [i \in 1..2 |-> F(i, At(j, -1))]], m2 |-> [j \in 1..2 |-> [i \in 1..2 |-> F(i, At(j, -2))]]]
Decides == IsDerivative(Data, x, 2, "1e-8", "64") <=> off[1] = 0
=============================================================================
