----------------------------- MODULE LFStackTrace -----------------------------
EXTENDS LFStack, TraceBatch
tvars == <<lvars, tid, pos>>
TInit == BatchInit /\ LInit
\* an effect is needed at the latest when its call returns; others may come first
TEffect == Is("ret") /\ ~calls[E.t].done /\ Silent /\ \E t \in DOMAIN calls : Effect(t)
TCall == Is("call") /\ Call(E.t, E.op, E.l) /\ Step
TRet == Is("ret") /\ Return(E.t, E.l) /\ Step
\* at the end the stack holds exactly what the last pop of the harness did not return: nothing
TEnd == Is("end") /\ st = << >> /\ calls = << >> /\ E.un = 0 /\ E.live = 0 /\ UNCHANGED lvars /\ Step
TNext == TEffect \/ TCall \/ TRet \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
