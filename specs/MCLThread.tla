------------------------------ MODULE MCLThread ------------------------------
(* The protocol of dd::logical_thread - one flag which the coroutine at its  *)
(* end and a detaching owner both try to set, one stop flag - refines        *)
(* LThread.  The body ends when it wants to or when it sees the stop.        *)
EXTENDS LThread
VARIABLES cpc, hpc, flag, sflag, touched, willing
vars == <<lvars, cpc, hpc, flag, sflag, touched, willing>>
C == 1
H == 1
\* what the library does must be allowed
May(a) == Assert(ENABLED a, "not allowed") /\ a
Init == /\ LInit /\ cpc = "new" /\ hpc = "none" /\ flag = FALSE /\ sflag = FALSE /\ touched = FALSE
        /\ willing \in BOOLEAN   \* does the body end without a stop?
Touch == touched' = (touched \/ C \in freed)
Keep == UNCHANGED <<flag, sflag, touched, willing>>
CStart == cpc = "new" /\ Start(C) /\ cpc' = "body" /\ UNCHANGED hpc /\ Keep
CMade == hpc = "none" /\ cpc # "new" /\ Made(H, C) /\ hpc' = "idle" /\ UNCHANGED cpc /\ Keep
CAsk == cpc = "body" /\ TokBegin(C) /\ cpc' = "look" /\ UNCHANGED hpc /\ Keep
CLook == cpc = "look" /\ May(TokEnd(C, sflag)) /\ cpc' = (IF sflag THEN "ending" ELSE "body") /\ Touch
         /\ UNCHANGED <<hpc, flag, sflag, willing>>
CEnd == (cpc = "ending" \/ (cpc = "body" /\ willing)) /\ May(BodyEnd(C)) /\ cpc' = "set" /\ UNCHANGED hpc /\ Keep
CSet == /\ cpc = "set" /\ flag' = TRUE /\ Touch /\ cpc' = IF flag THEN "free" ELSE "over"
        /\ UNCHANGED <<lvars, hpc, sflag, willing>>
CFree == cpc = "free" /\ May(Free(C)) /\ cpc' = "over" /\ UNCHANGED hpc /\ Keep
COver == cpc = "over" /\ May(Over(C)) /\ cpc' = "end" /\ UNCHANGED hpc /\ Keep
\* the owner
HStop == hpc = "idle" /\ stop[C] = "no" /\ StopBegin(H) /\ hpc' = "stopping" /\ UNCHANGED cpc /\ Keep
HStopSet == hpc = "stopping" /\ ~sflag /\ sflag' = TRUE /\ Touch /\ UNCHANGED <<lvars, cpc, hpc, flag, willing>>
HStopEnd == hpc = "stopping" /\ sflag /\ May(StopEnd(H, TRUE)) /\ hpc' = "idle" /\ UNCHANGED cpc /\ Keep
HJoin == hpc = "idle" /\ (willing \/ sflag) /\ JoinBegin({H}, FALSE) /\ hpc' = "wait" /\ UNCHANGED cpc /\ Keep
HDtor == hpc = "idle" /\ JoinBegin({H}, TRUE) /\ hpc' = "dtor" /\ UNCHANGED cpc /\ Keep
HDtorStop == hpc = "dtor" /\ sflag' = TRUE /\ Touch /\ hpc' = "wait" /\ UNCHANGED <<lvars, cpc, flag, willing>>
HWait == hpc = "wait" /\ flag /\ May(Free(C)) /\ hpc' = "joined" /\ UNCHANGED cpc /\ Keep
HJoined == hpc = "joined" /\ May(JoinEnd({H}, TRUE)) /\ hpc' = "end" /\ UNCHANGED cpc /\ Keep
HDetach == hpc = "idle" /\ (willing \/ sflag) /\ DetachBegin(H) /\ hpc' = "detach" /\ UNCHANGED cpc /\ Keep
HDetachSet == /\ hpc = "detach" /\ flag' = TRUE /\ Touch /\ hpc' = IF flag THEN "dfree" ELSE "detached"
              /\ UNCHANGED <<lvars, cpc, sflag, willing>>
HDetachFree == hpc = "dfree" /\ May(Free(C)) /\ hpc' = "detached" /\ UNCHANGED cpc /\ Keep
HDetached == hpc = "detached" /\ May(DetachEnd(H)) /\ hpc' = "end" /\ UNCHANGED cpc /\ Keep
End == cpc = "end" /\ hpc = "end" /\ UNCHANGED vars
CNext == CStart \/ CAsk \/ CLook \/ CEnd \/ CSet \/ CFree \/ COver
HNext == HStopSet \/ HStopEnd \/ HDtorStop \/ HWait \/ HJoined \/ HDetachSet \/ HDetachFree \/ HDetached
Next == CMade \/ CNext \/ HStop \/ HJoin \/ HDtor \/ HDetach \/ HNext \/ End
\* the body looks at its token again and again, and ends if it has seen a stop
Spec == Init /\ [][Next]_vars /\ WF_vars(CNext) /\ WF_vars(HNext) /\ SF_vars(CLook /\ sflag) /\ SF_vars(CEnd)
NoUseAfterFree == ~touched
FreedAtTheEnd == cpc = "end" /\ hpc = "end" => C \in freed
DetachedHasHandle == hpc \in {"detach", "dfree"} => Dom(own, H)
JoinEnds == hpc \in {"wait", "dtor"} ~> hpc = "end"
=============================================================================
