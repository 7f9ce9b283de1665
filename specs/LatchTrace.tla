------------------------------ MODULE LatchTrace ------------------------------
EXTENDS Latch, TraceBatch
tvars == <<lvars, tid, pos>>
TInit == BatchInit /\ LInit(T.cfg.count)
\* a count-down takes effect when its end, or zero, is needed
Need == \/ Is("down_e") /\ \E d \in dec : d.c = E.c
        \/ Is("run") /\ ~Zero
        \/ Is("ready_e") /\ E.ret = 1 /\ ~Zero
        \/ Is("quiet") /\ dec # {}
        \/ Is("wait_r") /\ \E b \in begun : b.w = E.w /\ Zero
\* a count-down that ends goes first; else the oldest
TDown == Need /\ Silent /\ \E d \in dec :
           /\ Is("down_e") => d.c = E.c
           /\ ~Is("down_e") => \A o \in dec : d.c <= o.c
           /\ Down(d)
TDownB == Is("down_b") /\ DownBegin(E.c, E.n) /\ Step
TDownE == Is("down_e") /\ DownEnd(E.c) /\ Step
TWaitB == Is("wait_b") /\ WaitBegin(E.w, E.arr = 1) /\ Step
TWaitR == Is("wait_r") /\ WaitReturns(E.w) /\ Step
\* all count-downs have been seen
TRun == Is("run") /\ E.sum = T.cfg.downs /\ Run(E.w, E.inl = 1, E.place = 1) /\ Step
TSum == Is("sum") /\ E.sum = T.cfg.downs /\ UNCHANGED lvars /\ Step
TReadyB == Is("ready_b") /\ ReadyBegin(E.c) /\ Step
TReadyE == Is("ready_e") /\ ReadyEnd(E.c, E.ret = 1) /\ Step
TQuiet == Is("quiet") /\ Quiet /\ Step
TSkip == (Is("tcreate") \/ Is("tjoin") \/ Is("tend") \/ Is("tdetach")) /\ UNCHANGED lvars /\ Step
TEnd == Is("end") /\ Zero /\ begun = {} /\ E.un = 0 /\ E.live = 0 /\ UNCHANGED lvars /\ Step
TNext == TDown \/ TDownB \/ TDownE \/ TWaitB \/ TWaitR \/ TRun \/ TSum \/ TReadyB \/ TReadyE \/ TQuiet \/ TSkip \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
