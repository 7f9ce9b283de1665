------------------------------- MODULE MemTrace -------------------------------
EXTENDS Mem, TraceBatch
tvars == <<mvars, tid, pos>>
TInit == BatchInit /\ MInit(1)
\* setting the default takes effect when something needs it
Pending == {t \in DOMAIN setting : setting[t].old = 0}
Need == More /\ E.e \in {"setdef_e", "ask_e", "ask_b", "alloc", "call"}
TEffect == Need /\ Silent /\ \E t \in Pending : SetEffect(t)
TStep ==
  /\ More /\ Step
  /\ \/ E.e = "call" /\ Call(E.t, E.c, E.r)
     \/ E.e = "pcall" /\ PoolCall(E.t, E.c, E.p)
     \/ E.e = "pool" /\ PoolBegin(E.t, E.p, E.r)
     \/ E.e = "pooled" /\ PoolMade(E.t, E.p)
     \/ E.e = "pool_x" /\ Refused(E.t, -E.p)
     \/ E.e = "poolres" /\ PoolRes(E.p, E.r)
     \/ E.e = "poolmem" /\ PoolStore(E.p, E.b, E.off, E.n)
     \/ E.e = "made" /\ Made(E.t, E.r)
     \/ E.e = "alloc" /\ Alloc(E.t, E.r, E.b, E.n, E.off)
     \/ E.e = "free" /\ Free(E.r, E.b, E.n, E.off)
     \/ E.e = "called" /\ Returned(E.t, E.c)
     \/ E.e = "call_x" /\ Refused(E.t, E.c)
     \/ E.e = "pass" /\ Pass(E.t, E.r)
     \/ E.e = "setdef_b" /\ SetBegin(E.t, E.r)
     \/ E.e = "setdef_e" /\ SetEnd(E.t, E.r)
     \/ E.e = "ask_b" /\ AskBegin(E.t)
     \/ E.e = "ask_e" /\ AskEnd(E.t, E.r)
     \/ E.e \in {"refuse", "inject", "tcreate", "tjoin", "tend", "tdetach"} /\ UNCHANGED mvars
     \/ E.e = "end" /\ Done /\ E.live = 0 /\ E.un = 0 /\ UNCHANGED mvars
TNext == TEffect \/ TStep
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
