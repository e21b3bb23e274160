------------------------------ MODULE ResultsMC ------------------------------
(* Saving, writing down and reading back on a small network. *)
EXTENDS Results, TLC
CONSTANTS MaxTimes
VARIABLES vec, hist, file, back
N0 == { [id |-> "a", type |-> "Compressorstation", cls |-> "edge"], [id |-> "b", type |-> "PQnode", cls |-> "node"],
        [id |-> "c", type |-> "Controlvalve", cls |-> "edge"] }
Range(i) == CASE i = "a" -> 1..2 [] i = "b" -> 3..3 [] OTHER -> 4..5
Num0 == [i \in {"a", "b", "c"} |-> [c |-> CASE i = "a" -> <<1, 2>> [] i = "c" -> <<0, 1>> [] OTHER -> <<-1, -1>>]]
PartOf(i) == [k \in Range(i) |-> vec[k]]
Init == vec = [k \in 1..5 |-> 0] /\ hist = <<>> /\ log = <<>> /\ last = <<>> /\ file = <<>> /\ back = <<>>
Change == /\ Len(last) < MaxTimes /\ file = <<>>
          /\ \E k \in 1..5, x \in 0..1 : vec[k] # x /\ vec' = [vec EXCEPT ![k] = x]
          /\ UNCHANGED <<rvars, hist, file, back>>
SaveNow == /\ Len(last) < MaxTimes /\ file = <<>>
           /\ \E t \in 1..3 : Save(N0, t, PartOf) /\ hist' = Append(hist, vec)
           /\ UNCHANGED <<vec, file, back>>
(* the first two numbers of each saved vector serve as controls *)
Ctl == [p \in 1..(2 * Len(hist)) |-> hist[(p + 1) \div 2][IF p % 2 = 1 THEN 1 ELSE 2]]
EntryFor(i) == [id |-> i, cls |-> "connections", type |-> By(N0, i).type,
                data |-> [k \in 1..Len(last) |-> [time |-> last[k], values |-> <<Ctl[(k - 1) * 2 + Num0[i].c[1] + 1]>>]]]
Write == /\ file = <<>> /\ last # <<>>
         /\ \E o \in {<<"a", "c">>, <<"c", "a">>} : file' = [k \in 1..2 |-> EntryFor(o[k])]
         /\ UNCHANGED <<rvars, vec, hist, back>>
ReadBack == /\ file # <<>> /\ back = <<>>
            /\ back' = [p \in 1..(2 * Len(last)) |->
                 LET k == (p + 1) \div 2 i == IF p % 2 = 1 THEN 0 ELSE 1
                     e == file[CHOOSE q \in 1..2 : Num0[file[q].id].c[1] = i] IN
                 At([j \in 1..Len(e.data) |-> e.data[j].time], [j \in 1..Len(e.data) |-> e.data[j].values], last[k], 1)]
            /\ UNCHANGED <<rvars, vec, hist, file>>
Next == Change \/ SaveNow \/ Write \/ ReadBack
Spec == Init /\ [][Next]_<<rvars, vec, hist, file, back>>
EveryTime == \A i \in DOMAIN log : Len(log[i]) = Len(last) /\ \A k \in 1..Len(last) :
               log[i][k].time = last[k] /\ \A p \in Range(i) : log[i][k].part[p] = hist[k][p]
EveryComponent == last # <<>> => DOMAIN log = {"a", "b", "c"}
Ascending == \A k \in 1..(Len(last) - 1) : last[k] < last[k + 1]
Written == file # <<>> => CompleteControls(N0, Num0, last, Ctl, file)
Same == back # <<>> => \A p \in 1..Len(Ctl) : FEq(back[p], Ctl[p])
(* what was saved stays *)
Keeps == [][\A i \in DOMAIN log : SubSeq(log'[i], 1, Len(log[i])) = log[i]]_<<rvars, vec, hist, file, back>>
=============================================================================
