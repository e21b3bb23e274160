-------------------------------- MODULE Units --------------------------------
(* What a measurement denotes. Its unit reads "[number ][prefix]symbol": the  *)
(* number multiplies, the SI prefix multiplies (raised to the power of the    *)
(* symbol), and the symbol converts to SI with a factor and possibly an       *)
(* offset. A measure is a function from its symbols to [f, off, pow, rel]     *)
(* where rel bounds how far rounded table values may be off.                  *)
EXTENDS Integers, Sequences, FiniteSets, Text, Flt
CONSTANTS Prefixes      \* prefix (characters glued) -> factor
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
AllIn(cs, S) == \A k \in 1..Len(cs) : cs[k] \in S
Some(cs) == Len(cs) > 0
Cut(cs, i) == SubSeq(cs, 1, i)
Rest(cs, i) == SubSeq(cs, i + 1, Len(cs))
EndsWith(cs, end) == IF Len(cs) < Len(end) THEN FALSE ELSE Rest(cs, Len(cs) - Len(end)) = end
Fraction(cs) == \/ cs = <<>>
                \/ cs[1] = "." /\ Some(Tail(cs)) /\ AllIn(Tail(cs), Digits)
Exponent(cs) == \/ cs = <<>>
                \/ /\ cs[1] = "e" /\ Len(cs) > 1
                   /\ IF cs[2] = "-" THEN Len(cs) > 2 /\ AllIn(Rest(cs, 2), Digits) ELSE AllIn(Tail(cs), Digits)
IsNumber(cs) == \E i \in 0..Len(cs) : \E j \in i..Len(cs) :
  /\ AllIn(Cut(cs, i), Digits) /\ Fraction(SubSeq(cs, i + 1, j)) /\ Exponent(Rest(cs, j)) /\ j > 0
(* all ways to read a unit: [num, prefix, symbol] *)
Readings(measure, cs) ==
  LET simple(ds) == { <<Glue(Cut(ds, i)), Glue(Rest(ds, i))>> : i \in { n \in 0..Len(ds) : Glue(Cut(ds, n)) \in DOMAIN Prefixes /\ Glue(Rest(ds, n)) \in DOMAIN measure } } IN
  { [num |-> "1", prefix |-> p[1], symbol |-> p[2]] : p \in simple(cs) }
  \cup UNION { { [num |-> Glue(Cut(cs, i - 1)), prefix |-> p[1], symbol |-> p[2]] : p \in simple(Rest(cs, i)) }
               : i \in { k \in 1..Len(cs) : cs[k] = " " /\ IsNumber(Cut(cs, k - 1)) } }
Raised(f, n) == CASE n = 1 -> FNum(f) [] n = 2 -> FMul(f, f) [] OTHER -> FMul(f, FMul(f, f))
Denoted(measure, value, r) ==
  LET s == measure[r.symbol] IN
  FAdd(FMul(s.f, FMul(value, FMul(r.num, Raised(Prefixes[r.prefix], s.pow)))), s.off)
(* how exactly it must be met *)
Slack(measure, value, r) ==
  LET s == measure[r.symbol] IN
  FAdd(FMul(s.rel, FAbs(FSub(Denoted(measure, value, r), s.off))), FMul("1e-12", FAbs(s.off)))

(* ---- reading as a machine: strip a symbol, then a number, look up the rest ---- *)
VARIABLES text, rest, found, phase
uvars == <<text, rest, found, phase>>
Give(cs) == /\ phase = "idle" /\ text' = cs /\ rest' = cs /\ phase' = "symbol" /\ found' = [num |-> "1", prefix |-> "", symbol |-> ""]
StripSymbol(measure, s) == /\ phase = "symbol"
                           /\ s \in DOMAIN measure /\ EndsWith(rest, Chars(s))
                           /\ rest' = Cut(rest, Len(rest) - Len(Chars(s)))
                           /\ found' = [found EXCEPT !.symbol = s] /\ phase' = "number" /\ UNCHANGED text
NoSymbol(measure) == /\ phase = "symbol"
                     /\ \A s \in DOMAIN measure : ~EndsWith(rest, Chars(s))
                     /\ phase' = "rejected" /\ UNCHANGED <<text, rest, found>>
LastSpace == IF \E k \in 1..Len(rest) : rest[k] = " " THEN CHOOSE k \in 1..Len(rest) : rest[k] = " " /\ \A j \in (k + 1)..Len(rest) : rest[j] # " " ELSE 0
StripNumber == /\ phase = "number"
               /\ LET k == LastSpace IN
                  IF k = 0 THEN phase' = "prefix" /\ UNCHANGED <<rest, found>>
                  ELSE IF IsNumber(Cut(rest, k - 1))
                  THEN phase' = "prefix" /\ found' = [found EXCEPT !.num = Glue(Cut(rest, k - 1))] /\ rest' = Rest(rest, k)
                  ELSE phase' = "rejected" /\ UNCHANGED <<rest, found>>
               /\ UNCHANGED text
LookUp == /\ phase = "prefix"
          /\ IF Glue(rest) \in DOMAIN Prefixes
             THEN found' = [found EXCEPT !.prefix = Glue(rest)] /\ phase' = "read" ELSE phase' = "rejected" /\ UNCHANGED found
          /\ UNCHANGED <<text, rest>>
=============================================================================
