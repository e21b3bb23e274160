------------------------------- MODULE Outputs -------------------------------
(* Runs that start at the same time and each take an output location under a  *)
(* name of their own. Names come from a generator that may repeat itself      *)
(* (time stamps). Taking a name is one indivisible step: it succeeds exactly  *)
(* if nothing has that name. A run whose names are all taken gives up.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MinTries      (* no run gives up earlier, unless an operation failed *)
VARIABLES
  owner,     (* name -> "before", "rival" or the run that took it *)
  asked,     (* run -> the names generated for it *)
  state,     (* run -> "idle", "busy", "has", "failed" *)
  got,       (* run -> its name *)
  hurt       (* runs one of whose operations failed for another reason *)
xvars == <<owner, asked, state, got, hurt>>
Taken == DOMAIN owner
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Runs == DOMAIN state
Begin(r) == state[r] = "idle" /\ state' = [state EXCEPT ![r] = "busy"] /\ UNCHANGED <<owner, asked, got, hurt>>
Generate(r, n) == state[r] = "busy" /\ asked' = [asked EXCEPT ![r] = Append(@, n)] /\ UNCHANGED <<owner, state, got, hurt>>
Take(r, n) == state[r] = "busy" /\ n \notin Taken /\ owner' = Set(owner, n, r) /\ UNCHANGED <<asked, state, got, hurt>>
Rival(n) == n \notin Taken /\ owner' = Set(owner, n, "rival") /\ UNCHANGED <<asked, state, got, hurt>>
Hurt(r) == state[r] = "busy" /\ hurt' = hurt \cup {r} /\ UNCHANGED <<owner, asked, state, got>>
Succeed(r, n) == /\ state[r] = "busy" /\ n \in Taken /\ owner[n] = r
                 /\ asked[r] # <<>> => asked[r][Len(asked[r])] = n
                 /\ state' = [state EXCEPT ![r] = "has"] /\ got' = [got EXCEPT ![r] = n] /\ UNCHANGED <<owner, asked, hurt>>
AllTaken(r) == \A k \in 1..Len(asked[r]) : asked[r][k] \in Taken /\ owner[asked[r][k]] # r
GiveUp(r) == /\ state[r] = "busy" /\ (r \in hurt \/ (AllTaken(r) /\ Len(asked[r]) >= MinTries))
             /\ state' = [state EXCEPT ![r] = "failed"] /\ UNCHANGED <<owner, asked, got, hurt>>
(* -------- promises -------- *)
Exclusive == \A r \in Runs : state[r] = "has" => owner[got[r]] = r /\ \A q \in Runs : q # r /\ state[q] = "has" => got[q] # got[r]
(* -------- filling an output directory -------- *)
Path(p) == "problem/" \o p
Distinct(names) == \A a, b \in 1..Len(names) : a # b => names[a] # names[b]
Copied(src, before, names, after) ==
  /\ \A p \in DOMAIN src : Path(p) \in DOMAIN after /\ after[Path(p)] = src[p]
  /\ \A k \in 1..Len(names) : names[k] \in DOMAIN after /\ names[k] \notin DOMAIN before /\ after[names[k]] = "empty"
  /\ DOMAIN after = DOMAIN before \cup { Path(p) : p \in DOMAIN src } \cup { names[k] : k \in 1..Len(names) } \cup {"problem"}
Intact(before, after) == \A p \in DOMAIN before : p \in DOMAIN after /\ after[p] = before[p]
Clear(before, names) == /\ Distinct(names)
                        /\ \A k \in 1..Len(names) : names[k] \notin DOMAIN before /\ names[k] # "problem"
                        /\ "problem" \notin DOMAIN before
=============================================================================
