------------------------------ MODULE MatrixMC ------------------------------
EXTENDS Matrix, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS Rows, Cols, Values, MaxOps, Tidy   (* a handler is used before the next is opened *)
VARIABLES given, rest, ops   (* contributions since the handler was opened, the matrix then *)
vars == <<mvars, given, rest, ops>>
Pick(S) == S
PickOne(S) == {RandomElement(S)}
Larger == (IF Rows > Cols THEN Rows ELSE Cols) - 1
May == Len(ops) < MaxOps
Log(o) == ops' = Append(ops, o)
Init == Blank(Rows, Cols) /\ given = <<>> /\ rest = <<>> /\ ops = <<>>
Opened == given' = <<>> /\ rest' = mat
Last == IF ops = <<>> THEN "" ELSE ops[Len(ops)].op
Now == Tidy => Last \in {"", "set", "forget"}
DoBuild == May /\ Now /\ \E t \in Pick(BOOLEAN) : Build(t) /\ Opened /\ Log([op |-> "build", flip |-> t])
DoRefill == May /\ Now /\ \E t \in Pick(BOOLEAN) : Refill(t) /\ Opened /\ Log([op |-> "refill", flip |-> t])
DoAdd == May /\ \E i \in Pick(0..Larger), j \in Pick(0..Larger), v \in Pick(Values) :
  /\ Contribute(i, j, v)
  /\ given' = Append(given, [cell |-> Cell(i, j, flip), value |-> v]) /\ UNCHANGED rest
  /\ Log([op |-> "add", i |-> i, j |-> j, v |-> v])
DoFinish == May /\ ops # <<>> /\ ops[Len(ops)].op # "set" /\ Finish /\ Log([op |-> "set"])
            /\ given' = (IF mode = "build" THEN <<>> ELSE given) /\ rest' = (IF mode = "build" THEN mat' ELSE rest)
DoForget == May /\ ops # <<>> /\ (Tidy => Last = "set" /\ mode = "refill") /\ ops[Len(ops)].op # "forget" /\ Forget(Rows, Cols) /\ given' = <<>> /\ rest' = <<>> /\ Log([op |-> "forget"])
Next == DoBuild \/ DoRefill \/ DoAdd \/ DoFinish \/ DoForget
Spec == Init /\ [][Next]_vars
Cells == (0..(Rows - 1)) \X (0..(Cols - 1))
(* nothing is left from before and nothing but the addressed entries changes *)
Refilled == mode = "refill" => \A c \in Cells : Val(mat, c) = Sum(given, c, Len(given))
Structure == mode = "refill" => DOMAIN mat = DOMAIN rest \cup Touched(given)
Waiting == mode = "build" => pending = given /\ mat = rest
InRange == DOMAIN mat \subseteq Cells
Fair == mode # "closed" => DOMAIN mat \subseteq Cells /\ \A k \in 1..Len(given) : given[k].cell \in Cells
(* building and refilling agree *)
Agree == LET B == Total(given) R == [c \in DOMAIN rest \cup Touched(given) |-> Sum(given, c, Len(given))]
         IN \A c \in Cells : Val(B, c) = Val(R, c)
View == <<mvars, given, rest, Len(ops), IF ops = <<>> THEN "" ELSE ops[Len(ops)].op>>
Dump == Len(ops) = MaxOps => CSVWrite("%1$s", <<ToJson([rows |-> Rows, cols |-> Cols, ops |-> ops])>>, IOEnv.GENOUT)
=============================================================================
