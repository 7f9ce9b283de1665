------------------------------ MODULE EventTrace ------------------------------
EXTENDS Event, TraceBatch
tvars == <<evars, tid, pos>>
TInit == BatchInit /\ EInit
Untaken(s) == {c \in DOMAIN calls : ~calls[c].done}
\* unlogged effects, right before an event that may need one
Need ==
  \/ Is("sub_e") \/ Is("notify_e") \/ Is("quiet")
  \/ Is("run") \/ Is("runall") \/ Is("runany")
NeedTake == \/ Is("notify_e") /\ ~calls[E.c].done
            \* a wait for any that this one did not resume belongs to another one
            \/ Is("notify_e") /\ \E d \in todo : d.c = E.c /\ Dom(kind, d.s) /\ kind[d.s] = "any" /\ ~\E o \in todo : o.s = d.s /\ o.c # E.c
            \/ Is("sub_e") /\ \E p \in pend : p.s = E.s /\ \E c \in Untaken(0) : calls[c].e = p.e
            \/ (Is("run") \/ Is("runany")) /\ Dom(kind, E.s) /\ ~\E d \in todo : d.s = E.s
            \/ Is("runany") /\ ~\E d \in todo : d.s = E.s /\ d.i = E.i
            \/ Is("runall") /\ ~AllTaken(E.s)
NeedSub == \/ Is("sub_e") /\ \E p \in pend : p.s = E.s
           \/ Is("quiet") /\ pend # {}
           \/ NeedTake
TSub == NeedSub /\ Silent /\ \E p \in pend : SubEffect(p)
TTake == NeedTake /\ Silent /\ \E c \in Untaken(0) : Take(c)
TSubB == Is("sub_b") /\ SubBegin(E.s, E.kind, E.es) /\ Step
TSubE == Is("sub_e") /\ SubEnd(E.s) /\ Step
TNotB == Is("notify_b") /\ NotifyBegin(E.c, E.ev, E.v, E.inl = 1, E.at) /\ Step
TNotE == Is("notify_e") /\ NotifyEnd(E.c, E.ret = 1) /\ Step
Places == {E.t, E.at}
TRun == Is("run") /\ RunOne(E.s, E.v, Places) /\ Step
TRunAll == Is("runall") /\ RunAll(E.s, E.vs, Places) /\ Step
TRunAny == Is("runany") /\ RunAny(E.s, E.i, E.v, Places) /\ Step
TQuiet == Is("quiet") /\ Quiet /\ Step
TSkip == (Is("tcreate") \/ Is("tjoin") \/ Is("tend") \/ Is("tdetach")) /\ UNCHANGED evars /\ Step
TEnd == Is("end") /\ Done /\ E.un = 0 /\ E.live = 0 /\ Step
TNext == TSub \/ TTake \/ TSubB \/ TSubE \/ TNotB \/ TNotE \/ TRun \/ TRunAll \/ TRunAny \/ TQuiet \/ TSkip \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
