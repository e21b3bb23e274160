----------------------------- MODULE DataFileMC -----------------------------
(* All files over a small network: every entry absent, good or flawed, in     *)
(* every order; and generator of such files for larger networks.              *)
EXTENDS DataFile, TLC, Json, CSV, IOUtils
CONSTANTS MaxEntries, Kinds0, Members
VARIABLE what
N0 == { c \in { [id |-> "p", type |-> "Pipe", L |-> 2, dx |-> 1], [id |-> "b", type |-> "Compressorstation", L |-> 0, dx |-> 1],
        [id |-> "s", type |-> "ConstraintSink", L |-> 0, dx |-> 1], [id |-> "v", type |-> "PQnode", L |-> 0, dx |-> 1],
        [id |-> "a", type |-> "Controlvalve", L |-> 0, dx |-> 1] } : c.id \in Members }
Num0 == [i \in {"p", "b", "s", "v", "a"} |->
          CASE i = "v" -> [s |-> <<0, 2>>, c |-> <<0, 0>>, q |-> <<0, 0>>]
            [] i = "b" -> [s |-> <<2, 6>>, c |-> <<0, 1>>, q |-> <<0, 0>>]
            [] i = "a" -> [s |-> <<6, 10>>, c |-> <<1, 2>>, q |-> <<0, 0>>]
            [] i = "p" -> [s |-> <<10, 16>>, c |-> <<2, 2>>, q |-> <<0, 0>>]
            [] OTHER -> [s |-> <<-1, -1>>, c |-> <<-1, -1>>, q |-> <<0, 1>>]]
Times0 == <<0, "1.5", 4>>
Whats == {"initial", "control", "cupper"}
Total(w) == CASE w = "control" -> 2 [] w = "cupper" -> 1 [] OTHER -> 16
Length(w) == IF w = "initial" THEN 16 ELSE 3 * Total(w)
Tag(i) == CASE i = "p" -> 10 [] i = "b" -> 20 [] i = "a" -> 30 [] i = "v" -> 40 [] i = "s" -> 50 [] OTHER -> 90
(* an entry of the given kind for a component (or a stranger) *)
Entry(i, k, w) ==
  LET c == IF i \in Ids(N0) THEN By(N0, i) ELSE [id |-> i, type |-> "Shortpipe", L |-> 0, dx |-> 1]
      base == IF w # "initial" THEN <<0, 2, 5>> ELSE IF c.type = "Pipe" THEN <<0, "0.5", 2>> ELSE IF c.type \in ShortEdges THEN <<0, 1>> ELSE <<0>>
      p == CASE k = "short" -> SubSeq(base, 1, Len(base) - 1)
             [] k = "unsorted" -> [j \in 1..Len(base) |-> base[Len(base) + 1 - j]]
             [] k = "off" -> [j \in 1..Len(base) |-> FAdd(base[j], "0.25")]
             [] OTHER -> base
      m == CASE k = "narrow" -> 0 [] k = "wide" -> 3 [] OTHER -> IF w = "initial" THEN 2 ELSE 1 IN
  [id |-> i, pts |-> p, vals |-> [j \in 1..Len(p) |-> [q \in 1..m |-> Tag(i) + 3 * j + q]]]
Candidates(w) == { c.id : c \in Needs(N0, w) } \cup {"z1", "z2"}
Reject == status = "rejected" /\ UNCHANGED <<dvars, what>>
Old(p) == ToString(-p)
Init == what \in Whats /\ given = <<>> /\ rest = <<>> /\ status = "compose" /\ vec = [p \in 1..Length(what) |-> Old(p)]
(* first the file is written down *)
Compose == /\ status = "compose" /\ Len(given) < MaxEntries /\ UNCHANGED <<vec, rest, status, what>>
           /\ \E i \in Candidates(what) \ Listed(given), k \in Kinds0 : given' = Append(given, Entry(i, k, what))
Written == status = "compose" /\ status' = "start" /\ UNCHANGED <<given, vec, rest, what>>
Read == Begin(N0, what, given) /\ UNCHANGED what
TakeOne == Take(N0, Num0, what, Times0, Total(what)) /\ UNCHANGED what
End == Finish /\ UNCHANGED what
Next == Compose \/ Written \/ Read \/ TakeOne \/ End
Spec == Init /\ [][Next]_<<dvars, what>>
(* the outcome depends only on the set of entries, and each component's part holds its own values *)
Outcome == status \in {"accepted", "rejected"} => (status = "accepted" <=> Acceptable(N0, what, given, Times0))
OwnValues == status = "accepted" => \A c \in Needs(N0, what) : Right(Num0, c, EntryOf(given, c.id), what, Times0, Total(what), vec)
Untouched == \A p \in DOMAIN vec :
  vec[p] = Old(p) \/ \E c \in Needs(N0, what) : c.id \in Listed(given) /\ p \in Part(Num0, c, what, Times0, Total(what))
Nothing == status = "rejected" /\ Missing(N0, what, given) # {} => \A p \in DOMAIN vec : vec[p] = Old(p)
(* everything belongs to exactly one component *)
Partition == \A w \in Whats : \A c, d \in Needs(N0, w) : c # d => Part(Num0, c, w, Times0, Total(w)) \cap Part(Num0, d, w, Times0, Total(w)) = {}
(* behaviours handed to the real code: the composed files *)
Dump == status = "start" => CSVWrite("%1$s", <<ToJson([what |-> what, given |-> given])>>, IOEnv.GENOUT)
=============================================================================
