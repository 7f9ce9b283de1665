----------------------------- MODULE MCAsyncTask -----------------------------
(* The protocol of dd::async_task - a ready flag and a count of owners, one  *)
(* atomic access per step - refines AsyncTask: one coroutine, one handle     *)
(* that waits, asks, and lets go at any moment.                              *)
EXTENDS AsyncTask
VARIABLES cpc, hpc, flag, refs, touched, freedby
vars == <<avars, cpc, hpc, flag, refs, touched, freedby>>
\* what the library does must be allowed
May(a) == Assert(ENABLED a, "not allowed") /\ a
Init == AInit /\ cpc = "new" /\ hpc = "none" /\ flag = FALSE /\ refs = 2 /\ touched = FALSE /\ freedby = "nobody"
C == 1
H == 1
Res == [kind |-> "val", v |-> 7]
\* an access to the frame
Touch == touched' = (touched \/ C \in freed)
Keep == UNCHANGED <<flag, refs, touched, freedby>>

CStart == cpc = "new" /\ Start(C) /\ cpc' = "body" /\ UNCHANGED hpc /\ Keep
CMade == hpc = "none" /\ cpc # "new" /\ Made(H, C) /\ hpc' = "idle" /\ UNCHANGED cpc /\ Keep
CEnd == cpc = "body" /\ May(BodyEnd(C, Res)) /\ cpc' = "set" /\ UNCHANGED hpc /\ Keep
CSet == cpc = "set" /\ flag' = TRUE /\ Touch /\ cpc' = "drop" /\ UNCHANGED <<avars, hpc, refs, freedby>>
CDrop == /\ cpc = "drop" /\ refs' = refs - 1 /\ Touch /\ cpc' = IF refs = 1 THEN "free" ELSE "over"
         /\ UNCHANGED <<avars, hpc, flag, freedby>>
CFree == cpc = "free" /\ May(Free(C)) /\ freedby' = "coroutine" /\ cpc' = "over" /\ UNCHANGED <<hpc, flag, refs, touched>>
COver == cpc = "over" /\ May(Over(C)) /\ cpc' = "end" /\ UNCHANGED hpc /\ Keep
HAsk == hpc = "idle" /\ Ask(0, H) /\ hpc' \in {"wait", "get", "ready"} /\ UNCHANGED cpc /\ Keep
HWait == hpc = "wait" /\ flag /\ May(Waited(0)) /\ Touch /\ hpc' = "idle" /\ UNCHANGED <<cpc, flag, refs, freedby>>
HGet == hpc = "get" /\ flag /\ May(Got(0, Res)) /\ Touch /\ hpc' = "idle" /\ UNCHANGED <<cpc, flag, refs, freedby>>
HReady == hpc = "ready" /\ May(ReadySaid(0, flag)) /\ Touch /\ hpc' = "idle" /\ UNCHANGED <<cpc, flag, refs, freedby>>
HGo == hpc = "idle" /\ LetGo(H) /\ hpc' = "drop" /\ UNCHANGED cpc /\ Keep
HDrop == /\ hpc = "drop" /\ refs' = refs - 1 /\ Touch /\ hpc' = IF refs = 1 THEN "free" ELSE "gone"
         /\ UNCHANGED <<avars, cpc, flag, freedby>>
HFree == hpc = "free" /\ May(Free(C)) /\ freedby' = "owner" /\ hpc' = "gone" /\ UNCHANGED <<cpc, flag, refs, touched>>
HGone == hpc = "gone" /\ May(LetGone(H, TRUE)) /\ hpc' = "end" /\ UNCHANGED cpc /\ Keep
End == cpc = "end" /\ hpc = "end" /\ UNCHANGED vars
Next == CStart \/ CMade \/ CEnd \/ CSet \/ CDrop \/ CFree \/ COver \/ HAsk \/ HWait \/ HGet \/ HReady \/ HGo \/ HDrop
        \/ HFree \/ HGone \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(CStart \/ CEnd \/ CSet \/ CDrop \/ CFree \/ COver) /\ WF_vars(HDrop \/ HFree \/ HGone)
        /\ WF_vars(HWait \/ HGet \/ HReady)
NoUseAfterFree == ~touched
FreedAtTheEnd == cpc = "end" /\ hpc = "end" => C \in freed
\* no waiting thread stays blocked (deadlock freedom says the same)
WaitEnds == hpc \in {"wait", "get"} ~> hpc = "idle"
=============================================================================
