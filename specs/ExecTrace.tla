------------------------------- MODULE ExecTrace -------------------------------
EXTENDS Exec, TraceBatch
tvars == <<evars, tid, pos>>
TInit == BatchInit /\ EInit
TNext ==
  /\ More /\ Step
  /\ \/ E.e = "start" /\ Start(E.t, E.c)
     \/ E.e = "resume" /\ Resume(E.t, E.c, E.ok)
     \/ E.e = "back" /\ Back(E.t, E.c)
     \/ E.e = "jump" /\ Jump(E.t, E.c, E.x)
     \/ E.e = "park" /\ Park(E.t, E.c)
     \/ E.e = "fin" /\ Fin(E.t, E.c)
     \/ E.e = "run" /\ Run(E.t, E.c, E.ok)
     \/ E.e = "list_b" /\ ListBegin(E.t, E.x, E.l, E.st)
     \/ E.e = "list_e" /\ ListEnd(E.t)
     \/ E.e = "attach" /\ HandBox(E.t, E.c, E.x)
     \/ E.e = "rev" /\ Reversed(E.a, E.b)
     \/ E.e = "drop" /\ Drop(E.c)
     \/ E.e = "works" /\ Works(E.t, E.x)
     \/ E.e = "pool_b" /\ PoolBegin(E.t, E.x)
     \/ E.e = "pool_e" /\ PoolEnd(E.t)
     \/ E.e = "tcreate" /\ Thread(E.t, E.c)
     \/ E.e \in {"tjoin", "tend", "tdetach"} /\ UNCHANGED evars
     \/ E.e = "end" /\ Done /\ E.live = 0 /\ E.un = 0 /\ UNCHANGED evars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
