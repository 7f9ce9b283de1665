----------------------------- MODULE LThreadTrace -----------------------------
EXTENDS LThread, TraceBatch
tvars == <<lvars, tid, pos>>
TInit == BatchInit /\ LInit
Range(s) == {s[i] : i \in 1..Len(s)}
TNext ==
  /\ Step
  /\ \/ Is("start") /\ Start(E.c)
     \/ Is("made") /\ Made(E.h, E.c)
     \/ Is("empty_handle") /\ Empty(E.h)
     \/ Is("step") /\ BodyStep(E.c)
     \/ Is("fin") /\ BodyEnd(E.c)
     \/ Is("over") /\ Over(E.c)
     \/ Is("tok_b") /\ TokBegin(E.c)
     \/ Is("tok_e") /\ TokEnd(E.c, E.ret = 1)
     \/ Is("stop_b") /\ StopBegin(E.h)
     \/ Is("stop_e") /\ StopEnd(E.h, E.ret = 1)
     \/ Is("join_b") /\ JoinBegin({E.h}, FALSE)
     \/ Is("join_e") /\ JoinEnd({E.h}, FALSE)
     \/ Is("stopall_b") /\ JoinBegin(Range(E.hs), TRUE)
     \/ Is("stopall_e") /\ JoinEnd(Range(E.hs), FALSE)
     \/ Is("dtor_b") /\ JoinBegin({E.h}, TRUE)
     \/ Is("dtor_e") /\ JoinEnd({E.h}, TRUE)
     \/ Is("assign_b") /\ JoinBegin({E.h}, TRUE)
     \/ Is("assign_e") /\ AssignEnd(E.h, E.g)
     \/ Is("detach_b") /\ DetachBegin(E.h)
     \/ Is("detach_e") /\ DetachEnd(E.h)
     \/ Is("free") /\ Free(E.c)
     \/ Is("move") /\ MoveNew(E.h, E.g)
     \/ Is("swap") /\ Swap(E.h, E.g)
     \/ Is("joinable") /\ Joinable(E.h, E.ret = 1)
     \/ Is("quiet") /\ Quiet
     \/ (Is("tcreate") \/ Is("tjoin") \/ Is("tend") \/ Is("tdetach")) /\ UNCHANGED lvars
     \/ Is("end") /\ Quiet /\ (\A h \in DOMAIN own : own[h] = 0) /\ DOMAIN st = freed /\ E.un = 0 /\ E.live = 0
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
