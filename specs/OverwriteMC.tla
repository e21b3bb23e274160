----------------------------- MODULE OverwriteMC -----------------------------
EXTENDS Overwrite
Disks == { <<>>, "file" :> "old", "bystander" :> "other", "file" :> "old" @@ "bystander" :> "other",
           "file" :> "old" @@ "backup" :> "other", "backup" :> "other", "file" :> "old" @@ "backup" :> "other" @@ "backup_" :> "other" }
Init == disk \in Disks /\ first = disk /\ pc = "begin" /\ aside = "" /\ faults = 0 /\ told = ""
Next == SetAside \/ SetAsideFails \/ Nothing \/ Create \/ CreateFails \/ Write \/ WriteFails \/ Clear \/ ClearFails \/ Back \/ BackFails
Spec == Init /\ [][Next]_ovars /\ WF_ovars(Next)
Always == Kept(disk, first) /\ Bystanders(disk, first)
End == pc = "end" => /\ (told = "ok" => Success(disk, first) /\ faults = 0)
                     /\ (faults = 0 => told = "ok")
                     /\ (faults <= 1 => Whole(disk, first))
Answers == <>(pc = "end" /\ told \in {"ok", "failed"})
=============================================================================
