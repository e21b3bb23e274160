-------------------------------- MODULE Flt --------------------------------
(* Real (IEEE double) arithmetic for TLC. A number is a TLC integer or a      *)
(* decimal string ("0.25", "-1e-3", "nan", "inf"). The operators are computed *)
(* by java/vt/Flt.java; the bodies here only fix their arities.               *)
FNum(a) == a
FAdd(a, b) == a
FSub(a, b) == a
FMul(a, b) == a
FDiv(a, b) == a
FNeg(a) == a
FAbs(a) == a
FMax(a, b) == a
FMin(a, b) == a
FSqrt(a) == a
FSin(a) == a
FCos(a) == a
FExp(a) == a
FLog10(a) == a
FPow(a, b) == a
FLt(a, b) == FALSE
FLe(a, b) == FALSE
FEq(a, b) == FALSE
FFinite(a) == FALSE
FIsNaN(a) == FALSE
FClose(a, b, atol, rtol) == FALSE
FSum(s) == s
FDot(s, t) == s
FNorm(s) == s
FCloseSeq(s, t, atol, rtol) == FALSE
FCeil(a) == 0
FFloor(a) == 0
FSolve(A, y) == y
(* matrices are sequences of rows *)
FMatMul(A, B) == A
FMatAdd(A, B) == A
FMatScale(a, A) == A
FSolveM(A, Y) == Y
FCloseMat(A, B, atol, rtol) == FALSE
=============================================================================
