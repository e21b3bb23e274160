-------------------------------- MODULE Run --------------------------------
(* Runs of the program on one problem directory, several of them maybe at the *)
(* same time. A run takes an output directory of its own, reads the problem,  *)
(* computes, and only then copies the problem and writes the result files.    *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Valid(_), Computable(_)   (* of versions of the problem *)
VARIABLES
  problem,   (* the version of the problem in the directory *)
  dirs,      (* output directories: name -> [copy, result]; "none", "part" or the version *)
  phase,     (* run -> "idle", "begun", "read", "computed", "copied", "done", "failed" *)
  mine,      (* run -> its output directory *)
  seen,      (* run -> the version it read *)
  hurt       (* runs that met a failing disk *)
uvars == <<problem, dirs, phase, mine, seen, hurt>>
Runs == DOMAIN phase
Active == { r \in Runs : phase[r] \notin {"idle", "done", "failed"} }
Go(r, p) == phase' = [phase EXCEPT ![r] = p]
Start(r, n) == /\ phase[r] = "idle" /\ n \notin DOMAIN dirs /\ Go(r, "begun")
               /\ dirs' = [x \in DOMAIN dirs \cup {n} |-> IF x = n THEN [copy |-> "none", result |-> "none"] ELSE dirs[x]]
               /\ mine' = [mine EXCEPT ![r] = n] /\ UNCHANGED <<problem, seen, hurt>>
Read(r) == /\ phase[r] = "begun" /\ Valid(problem) /\ Go(r, "read") /\ seen' = [seen EXCEPT ![r] = problem]
           /\ UNCHANGED <<problem, dirs, mine, hurt>>
Refuse(r) == phase[r] = "begun" /\ ~Valid(problem) /\ Go(r, "failed") /\ UNCHANGED <<problem, dirs, mine, seen, hurt>>
Compute(r) == phase[r] = "read" /\ Computable(seen[r]) /\ Go(r, "computed") /\ UNCHANGED <<problem, dirs, mine, seen, hurt>>
Diverge(r) == phase[r] = "read" /\ ~Computable(seen[r]) /\ Go(r, "failed") /\ UNCHANGED <<problem, dirs, mine, seen, hurt>>
Copy(r) == /\ phase[r] = "computed" /\ Go(r, "copied") /\ dirs' = [dirs EXCEPT ![mine[r]].copy = problem]
           /\ UNCHANGED <<problem, mine, seen, hurt>>
Write(r) == /\ phase[r] = "copied" /\ Go(r, "done") /\ dirs' = [dirs EXCEPT ![mine[r]].result = seen[r]]
            /\ UNCHANGED <<problem, mine, seen, hurt>>
(* the disk fails: what was being written may remain in part *)
Break(r) == /\ r \in Active /\ Go(r, "failed") /\ hurt' = hurt \cup {r}
            /\ \/ UNCHANGED dirs
               \/ phase[r] = "computed" /\ dirs' = [dirs EXCEPT ![mine[r]].copy = "part"]
               \/ phase[r] = "copied" /\ dirs' = [dirs EXCEPT ![mine[r]].result = "part"]
            /\ UNCHANGED <<problem, mine, seen>>
(* the user changes the problem while nothing runs *)
Change(v) == Active = {} /\ v # problem /\ problem' = v /\ UNCHANGED <<dirs, phase, mine, seen, hurt>>
(* -------- promises -------- *)
OwnPlace == \A r, q \in Runs : phase[r] # "idle" /\ phase[q] # "idle" /\ r # q => mine[r] # mine[q]
Complete == \A r \in Runs : phase[r] = "done" => dirs[mine[r]] = [copy |-> seen[r], result |-> seen[r]] /\ Valid(seen[r]) /\ Computable(seen[r])
NothingWritten == \A r \in Runs : phase[r] = "failed" /\ r \notin hurt => dirs[mine[r]].result = "none"
(* nobody touches the output directories of others *)
OthersKept == [][\A n \in DOMAIN dirs : n \in DOMAIN dirs' /\ (dirs'[n] # dirs[n] => \E r \in Active : mine[r] = n)]_uvars
(* a run on a sound disk that ended succeeded exactly if it could *)
Verdict == \A r \in Runs : phase[r] = "done" => seen[r] # "none"
=============================================================================
