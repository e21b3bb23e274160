------------------------------- MODULE Matrix -------------------------------
(* A sparse matrix and the handlers that fill it. A handler is opened on a    *)
(* matrix, is given contributions (row, column, value) and finished. Building *)
(* starts from a matrix without entries and collects the contributions until  *)
(* it is finished; refilling starts by setting every entry to zero and adds   *)
(* each contribution at once. Either may work on the transposed matrix.       *)
EXTENDS Integers, Sequences, Flt
VARIABLES
  rows, cols, (* the shape *)
  mat,        (* the entries: a function from <<row, column>> to values *)
  mode,       (* "closed", "build" or "refill" *)
  flip,       (* rows and columns of contributions are exchanged *)
  pending     (* contributions of a "build" that is not finished *)
mvars == <<rows, cols, mat, mode, flip, pending>>
Cell(i, j, t) == IF t THEN <<j, i>> ELSE <<i, j>>
Inside(i, j, t) == LET c == Cell(i, j, t) IN c[1] \in 0..(rows - 1) /\ c[2] \in 0..(cols - 1)
Val(m, c) == IF c \in DOMAIN m THEN m[c] ELSE "0"
(* the sum of the contributions to one cell, in the order they were given *)
RECURSIVE Sum(_, _, _)
Sum(given, c, k) == IF k = 0 THEN "0" ELSE
  IF given[k].cell = c THEN FAdd(Sum(given, c, k - 1), given[k].value) ELSE Sum(given, c, k - 1)
Touched(given) == { given[k].cell : k \in 1..Len(given) }
Total(given) == [c \in Touched(given) |-> Sum(given, c, Len(given))]
Zero(m) == [c \in DOMAIN m |-> "0"]
Plus(m, c, v) == [x \in DOMAIN m \cup {c} |-> IF x = c THEN FAdd(Val(m, c), v) ELSE m[x]]

Blank(r, c) == rows = r /\ cols = c /\ mat = <<>> /\ mode = "closed" /\ flip = FALSE /\ pending = <<>>
Shape == <<rows, cols>>
Build(t) == UNCHANGED Shape /\ mat = <<>> /\ mode' = "build" /\ flip' = t /\ pending' = <<>> /\ mat' = mat
Refill(t) == UNCHANGED Shape /\ mode' = "refill" /\ flip' = t /\ pending' = <<>> /\ mat' = Zero(mat)
Contribute(i, j, v) ==
  /\ mode # "closed" /\ Inside(i, j, flip)
  /\ IF mode = "build"
     THEN pending' = Append(pending, [cell |-> Cell(i, j, flip), value |-> v]) /\ mat' = mat
     ELSE mat' = Plus(mat, Cell(i, j, flip), v) /\ pending' = pending
  /\ UNCHANGED <<rows, cols, mode, flip>>
(* A finished build has exactly the entries contributed to; the builder keeps *)
(* nothing of them.                                                           *)
Finish == /\ mode # "closed"
          /\ IF mode = "build" THEN mat' = Total(pending) /\ pending' = <<>> ELSE UNCHANGED <<mat, pending>>
          /\ UNCHANGED <<rows, cols, mode, flip>>
(* an empty matrix in its place *)
Forget(r, c) == rows' = r /\ cols' = c /\ mode' = "closed" /\ flip' = FALSE /\ pending' = <<>> /\ mat' = <<>>
=============================================================================
