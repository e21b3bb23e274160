------------------------------ MODULE Overwrite ------------------------------
(* Overwriting one file of a directory, on a disk whose operations may fail.  *)
(* A file holds "old", "new", "part" (some of the new content) or "other"     *)
(* (bystanders). The procedure: set the old file aside under a free name,     *)
(* create and write the new one, remove the old one; on failure put the old   *)
(* one back, or remove what was written if there was none.                    *)
EXTENDS Integers, FiniteSets, Sequences, TLC
VARIABLES disk, first, pc, aside, faults, told
ovars == <<disk, first, pc, aside, faults, told>>
Put(d, n, c) == [x \in DOMAIN d \cup {n} |-> IF x = n THEN c ELSE d[x]]
Del(d, n) == [x \in DOMAIN d \ {n} |-> d[x]]
(* -------- what is promised -------- *)
Had(d) == "file" \in DOMAIN d
Bystanders(d, s) == \A n \in DOMAIN s : s[n] = "other" => n \in DOMAIN d /\ d[n] = "other"
(* the old content is somewhere, or the new one in place *)
Kept(d, s) == Had(s) => \/ \E n \in DOMAIN d : d[n] = "old"
                        \/ Had(d) /\ d["file"] = "new"
Whole(d, s) == \/ Had(d) /\ d["file"] = "new"
               \/ Had(s) /\ Had(d) /\ d["file"] = "old"
               \/ ~Had(s) /\ ~Had(d)
Success(d, s) == Had(d) /\ d["file"] = "new" /\ DOMAIN d = DOMAIN s \cup {"file"}
(* -------- the procedure -------- *)
Free(d) == CHOOSE n \in {"backup", "backup_", "backup__"} : n \notin DOMAIN d
Fail == faults' = faults + 1
Fine == UNCHANGED faults
SetAside == pc = "begin" /\ Had(disk) /\ aside' = Free(disk) /\ disk' = Put(Del(disk, "file"), aside', "old") /\ pc' = "create" /\ Fine /\ UNCHANGED <<first, told>>
SetAsideFails == pc = "begin" /\ Had(disk) /\ pc' = "end" /\ told' = "failed" /\ Fail /\ UNCHANGED <<disk, first, aside>>
Nothing == pc = "begin" /\ ~Had(disk) /\ pc' = "create" /\ Fine /\ UNCHANGED <<disk, first, aside, told>>
Create == pc = "create" /\ disk' = Put(disk, "file", "part") /\ pc' = "write" /\ Fine /\ UNCHANGED <<first, aside, told>>
CreateFails == pc = "create" /\ pc' = "back" /\ Fail /\ UNCHANGED <<disk, first, aside, told>>
Write == pc = "write" /\ disk' = Put(disk, "file", "new") /\ pc' = "clear" /\ Fine /\ UNCHANGED <<first, aside, told>>
WriteFails == pc = "write" /\ pc' = "back" /\ Fail /\ UNCHANGED <<disk, first, aside, told>>
Clear == pc = "clear" /\ disk' = (IF aside = "" THEN disk ELSE Del(disk, aside)) /\ pc' = "end" /\ told' = "ok" /\ Fine /\ UNCHANGED <<first, aside>>
ClearFails == pc = "clear" /\ aside # "" /\ pc' = "end" /\ told' = "failed" /\ Fail /\ UNCHANGED <<disk, first, aside>>
Back == pc = "back" /\ pc' = "end" /\ told' = "failed" /\ Fine /\ UNCHANGED <<first, aside>>
        /\ disk' = (IF aside # "" THEN Put(Del(disk, aside), "file", "old") ELSE Del(disk, "file"))
BackFails == pc = "back" /\ pc' = "end" /\ told' = "failed" /\ Fail /\ UNCHANGED <<disk, first, aside>>
=============================================================================
