------------------------------- MODULE PathsMC -------------------------------
(* All short roots and files, against a tree in which the unknown starting    *)
(* directory lies deep enough to be climbed out of.                           *)
EXTENDS Paths, TLC
CONSTANTS Alphabet, MaxLen
VARIABLES root, file
vars == <<pvars, root, file>>
Depth == 8
Cwd == [k \in 1..Depth |-> "?" \o ToString(k)]
RECURSIVE Tree(_, _)
Tree(p, parts) == IF parts = <<>> THEN p ELSE
  Tree(IF Head(parts) \in {"", "."} THEN p ELSE IF Head(parts) = ".." THEN (IF p = <<>> THEN p ELSE SubSeq(p, 1, Len(p) - 1))
       ELSE Append(p, Head(parts)), Tail(parts))
InTree(r, f) ==
  LET q == Tree(IF Absolute(r) THEN <<>> ELSE Cwd, PartsOf(r))
      p == IF Absolute(f) THEN Tree(<<>>, PartsOf(f)) ELSE Tree(q, PartsOf(f))
  IN /\ Absolute(f) => Absolute(r)      \* where the start lies is unknown
     /\ Len(q) <= Len(p) /\ SubSeq(p, 1, Len(q)) = q
Init == root = "" /\ file = "" /\ walk = "idle" /\ at = Here /\ todo = <<>> /\ base = Here
GrowRoot == walk = "idle" /\ file = "" /\ Len(Chars(root)) < MaxLen /\ \E c \in Alphabet : root' = Glue(<<root, c>>) /\ UNCHANGED <<pvars, file>>
GrowFile == walk = "idle" /\ Len(Chars(file)) < MaxLen /\ \E c \in Alphabet : file' = Glue(<<file, c>>) /\ UNCHANGED <<pvars, root>>
Go == Start(root) /\ UNCHANGED <<root, file>>
Keep == Stays /\ UNCHANGED <<root, file>>
Up == GoesUp /\ UNCHANGED <<root, file>>
Down == GoesDown /\ UNCHANGED <<root, file>>
In == Enter(file) /\ UNCHANGED <<root, file>>
Out == Arrive /\ UNCHANGED <<root, file>>
Next == GrowRoot \/ GrowFile \/ Go \/ Keep \/ Up \/ Down \/ In \/ Out
Spec == Init /\ [][Next]_vars
Faithful == walk = "done" => /\ AtOrBelow(at, base) = Inside(root, file)
                             /\ (Inside(root, file) = InTree(root, file))
Itself == walk = "done" => Inside(root, "") /\ Inside(root, ".") /\ (Inside(root, "..") => Where(root) = Slash)
Blind == walk = "done" /\ root # "" /\ file # "" => Inside(root, file) = Inside(Glue(<<root, "/.">>), Glue(<<file, "/">>))
=============================================================================
