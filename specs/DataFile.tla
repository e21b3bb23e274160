------------------------------ MODULE DataFile ------------------------------
(* Data given per component (initial values, controls, bounds): a file is a   *)
(* sequence of entries [id, pts, vals], read entry by entry into a vector.    *)
EXTENDS Network, GasLaw
Letter(what) == CASE what = "initial" -> "s" [] what \in {"clower", "cupper"} -> "q" [] OTHER -> "c"
Needs(n, what) == { c \in n : Size(c, Letter(what)) > 0 }
Width(c, what) == IF what = "initial" THEN 2 ELSE Size(c, Letter(what))
(* the points at which values are needed: along an edge, or in time *)
Places(c, what, times) ==
  IF what # "initial" THEN times
  ELSE CASE c.type = "Pipe" -> [k \in 1..Points(c) |-> FMul(k - 1, FDiv(c.L, Points(c) - 1))]
         [] c.type \in ShortEdges -> <<0, 1>>
         [] OTHER -> <<0>>
Within(p, x) == FLe(FSub(p[1], "1e-10"), x) /\ FLe(x, FAdd(p[Len(p)], "1e-10"))
Shaped(c, d, what) ==
  /\ Len(d.pts) >= 1 /\ Len(d.vals) = Len(d.pts)
  /\ \A k \in 1..Len(d.vals) : Len(d.vals[k]) = Width(c, what)
  /\ \A k \in 1..(Len(d.pts) - 1) : FLt(d.pts[k], d.pts[k + 1])
  /\ what = "initial" =>
       /\ \E k \in 1..Len(d.pts) : FEq(d.pts[k], 0)
       /\ c.type \in ShortEdges => Len(d.pts) = 2 /\ \E k \in 1..2 : FEq(d.pts[k], 1)
       /\ c.type \notin ShortEdges \cup {"Pipe"} => Len(d.pts) = 1
Usable(c, d, what, times) ==
  Shaped(c, d, what) /\ LET ps == Places(c, what, times) IN \A k \in 1..Len(ps) : Within(d.pts, ps[k])
ValueAt(c, d, what, x) ==
  LET raw == [k \in 1..Width(c, what) |-> At(d.pts, d.vals, x, k)] IN
  IF what = "initial" /\ c.type = "Pipe" THEN <<DensityOfBar(raw[1]), raw[2]>> ELSE raw
(* position in the flat vector of the i-th value at the k-th place; total is the
   length of one time point *)
Pos(num, c, what, total, k, i) ==
  IF what = "initial" THEN num[c.id].s[1] + (k - 1) * Width(c, what) + i
  ELSE (k - 1) * total + num[c.id][Letter(what)][1] + i
Part(num, c, what, times, total) ==
  { Pos(num, c, what, total, k, i) : k \in 1..Len(Places(c, what, times)), i \in 1..Width(c, what) }
Listed(file) == { file[k].id : k \in 1..Len(file) }
EntryOf(file, id) == file[CHOOSE k \in 1..Len(file) : file[k].id = id]
Missing(n, what, file) == { c.id : c \in Needs(n, what) } \ Listed(file)
Strangers(n, what, file) == Listed(file) \ { c.id : c \in Needs(n, what) }
Acceptable(n, what, file, times) ==
  /\ Missing(n, what, file) = {}
  /\ \A c \in Needs(n, what) : Usable(c, EntryOf(file, c.id), what, times)
Right(num, c, d, what, times, total, vec) ==
  LET ps == Places(c, what, times) IN
  \A k \in 1..Len(ps) :
    LET v == ValueAt(c, d, what, ps[k]) IN
    \A i \in 1..Width(c, what) : FClose(vec[Pos(num, c, what, total, k, i)], v[i], "1e-10", "1e-11")

(* ---- reading as a state machine ---- *)
VARIABLES given, vec, rest, status
dvars == <<given, vec, rest, status>>
(* the whole file is checked for missing entries before anything is written *)
Begin(n, what, file) ==
  /\ status = "start" /\ given' = file /\ rest' = file
  /\ status' = IF Missing(n, what, file) = {} THEN "reading" ELSE "rejected"
  /\ UNCHANGED vec
Take(n, num, what, times, total) ==
  /\ status = "reading" /\ rest # <<>>
  /\ LET d == Head(rest) IN
     IF d.id \notin { c.id : c \in Needs(n, what) } THEN rest' = Tail(rest) /\ UNCHANGED <<vec, status>>
     ELSE LET c == By(n, d.id) ps == Places(c, what, times) IN
       IF ~Usable(c, d, what, times) THEN status' = "rejected" /\ UNCHANGED <<vec, rest>>
       ELSE /\ vec' = [p \in DOMAIN vec |->
                        IF p \notin Part(num, c, what, times, total) THEN vec[p]
                        ELSE LET w == CHOOSE w \in (1..Len(ps)) \X (1..Width(c, what)) : Pos(num, c, what, total, w[1], w[2]) = p IN
                             ValueAt(c, d, what, ps[w[1]])[w[2]]]
            /\ rest' = Tail(rest) /\ UNCHANGED status
  /\ UNCHANGED given
Finish == status = "reading" /\ rest = <<>> /\ status' = "accepted" /\ UNCHANGED <<given, vec, rest>>
=============================================================================
