---------------------------- MODULE AsyncTaskTrace ----------------------------
EXTENDS AsyncTask, TraceBatch
tvars == <<avars, tid, pos>>
TInit == BatchInit /\ AInit
O == [kind |-> E.kind, v |-> E.v]
TNext ==
  /\ Step
  /\ \/ Is("start") /\ Start(E.c)
     \/ Is("made") /\ Made(E.h, E.c)
     \/ Is("empty_handle") /\ Empty(E.h)
     \/ Is("step") /\ BodyStep(E.c)
     \/ Is("fin") /\ BodyEnd(E.c, O)
     \/ Is("over") /\ Over(E.c)
     \/ (Is("wait_b") \/ Is("get_b") \/ Is("ready_b")) /\ Ask(E.t, E.h)
     \/ Is("wait_e") /\ Waited(E.t)
     \/ Is("get_e") /\ Got(E.t, O)
     \/ Is("ready_e") /\ ReadySaid(E.t, E.ret = 1)
     \/ Is("go_b") /\ LetGo(E.h)
     \/ Is("go_e") /\ LetGone(E.h, E.gone = 1)
     \/ Is("free") /\ Free(E.c)
     \/ Is("move") /\ MoveNew(E.h, E.g)
     \/ Is("swap") /\ Swap(E.h, E.g)
     \/ Is("is_empty") /\ IsEmpty(E.h, E.ret = 1)
     \/ Is("quiet") /\ Quiet
     \/ (Is("tcreate") \/ Is("tjoin") \/ Is("tend") \/ Is("tdetach")) /\ UNCHANGED avars
     \/ Is("end") /\ Quiet /\ (\A h \in DOMAIN own : own[h] = 0) /\ DOMAIN st = freed /\ E.un = 0 /\ E.live = 0
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
