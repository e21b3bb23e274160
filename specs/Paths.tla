-------------------------------- MODULE Paths --------------------------------
(* Lexical containment of paths. A path is a text; its parts lie between the  *)
(* slashes. Walking along the parts: an empty part and "." stay, ".." goes up *)
(* (at the file system's root it stays), any other part goes down. A relative *)
(* path starts somewhere unknown, so going up from there is remembered.       *)
EXTENDS Integers, Sequences, Text
VARIABLES at, todo, walk, base   (* position, parts to go, "root"/"file"/"done", the root's position *)
pvars == <<at, todo, walk, base>>
RECURSIVE Parts(_, _, _)
Parts(cs, k, part) ==
  IF k > Len(cs) THEN <<part>>
  ELSE IF cs[k] = "/" THEN <<part>> \o Parts(cs, k + 1, "")
  ELSE Parts(cs, k + 1, Glue(<<part, cs[k]>>))
PartsOf(t) == Parts(Chars(t), 1, "")
Absolute(t) == Len(Chars(t)) > 0 /\ Chars(t)[1] = "/"
Slash == [absolute |-> TRUE, ups |-> 0, names |-> <<>>]
Here == [absolute |-> FALSE, ups |-> 0, names |-> <<>>]
Begin(t) == IF Absolute(t) THEN Slash ELSE Here
Stay(p) == p
Higher(p) == IF p.names # <<>> THEN [p EXCEPT !.names = SubSeq(@, 1, Len(@) - 1)]
             ELSE IF p.absolute THEN p ELSE [p EXCEPT !.ups = @ + 1]
Lower(p, n) == [p EXCEPT !.names = Append(@, n)]
Move(p, part) == IF part \in {"", "."} THEN Stay(p) ELSE IF part = ".." THEN Higher(p) ELSE Lower(p, part)
(* p is q or below it, for positions q reached before p on the way *)
AtOrBelow(p, q) == /\ p.absolute = q.absolute /\ p.ups = q.ups /\ Len(q.names) <= Len(p.names)
                   /\ SubSeq(p.names, 1, Len(q.names)) = q.names
(* -------- the machine -------- *)
Start(root) == walk = "idle" /\ walk' = "root" /\ at' = Begin(root) /\ todo' = PartsOf(root) /\ base' = Here
Stays == walk \in {"root", "file"} /\ todo # <<>> /\ Head(todo) \in {"", "."} /\ todo' = Tail(todo) /\ UNCHANGED <<at, walk, base>>
GoesUp == walk \in {"root", "file"} /\ todo # <<>> /\ Head(todo) = ".." /\ at' = Higher(at) /\ todo' = Tail(todo) /\ UNCHANGED <<walk, base>>
GoesDown == walk \in {"root", "file"} /\ todo # <<>> /\ Head(todo) \notin {"", ".", ".."}
            /\ at' = Lower(at, Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED <<walk, base>>
Enter(file) == /\ walk = "root" /\ todo = <<>> /\ walk' = "file" /\ base' = at /\ todo' = PartsOf(file)
               /\ at' = IF Absolute(file) THEN Slash ELSE at
Arrive == walk = "file" /\ todo = <<>> /\ walk' = "done" /\ UNCHANGED <<at, todo, base>>

(* -------- the answer at once -------- *)
RECURSIVE Along(_, _)
Along(p, parts) == IF parts = <<>> THEN p ELSE Along(Move(p, Head(parts)), Tail(parts))
Where(t) == Along(Begin(t), PartsOf(t))
From(q, t) == IF Absolute(t) THEN Where(t) ELSE Along(q, PartsOf(t))
Inside(root, file) == AtOrBelow(From(Where(root), file), Where(root))
=============================================================================
