------------------------------- MODULE GenTrace -------------------------------
EXTENDS Gen, TraceBatch
tvars == <<gvars, tid, pos>>
TInit == BatchInit /\ GInit
B(x) == x = 1
TNext ==
  /\ Step
  /\ \/ Is("make") /\ MakeObj(E.o, E.c)
     \/ Is("none") /\ NoneObj(E.o)
     \/ Is("step_b") /\ StepBegin(E.o, E.by, B(E.ch))
     \/ Is("step_e") /\ StepEnd(E.o, E.by, E.kind, E.v)
     \/ Is("sess_e") /\ SessEnd(E.o, E.x)
     \/ Is("same") /\ Same(E.o, B(E.ret))
     \/ Is("peek") /\ Peek(E.o, E.v)
     \/ Is("put") /\ Write(E.o, E.v)
     \/ Is("at_end") /\ AtEnd(E.o, B(E.ret))
     \/ Is("empty") /\ IsEmpty(E.o, B(E.ret))
     \/ Is("eq") /\ Equal(E.o, E.p, B(E.ret))
     \/ Is("body_b") /\ BodyBegin(E.c)
     \/ Is("job") /\ Job(E.c)
     \/ Is("job_b") /\ JobBegin(E.c)
     \/ Is("kill_b") /\ Kill(E.c)
     \/ Is("kill_e") /\ Killed(E.c)
     \/ Is("hop_b") /\ HopBegin(E.c)
     \/ Is("hop_e") /\ HopEnd(E.c)
     \/ Is("y_b") /\ Yield(E.c, E.v, E.form)
     \/ Is("y_e") /\ YieldEnd(E.c, E.v, TRUE)
     \/ Is("el_b") /\ ElemBegin(E.c, E.o, B(E.rng), B(E.keep))
     \/ Is("el_r") /\ ElemVals(E.c, E.l)
     \/ Is("el_e") /\ ElemEnd(E.c)
     \/ Is("body_e") /\ BodyEnd(E.c)
     \/ Is("body_x") /\ BodyThrow(E.c, E.x)
     \/ Is("free") /\ Free(E.c)
     \/ Is("move") /\ Move(E.o, E.p)
     \/ Is("swap") /\ Swap(E.o, E.p)
     \/ Is("assign_b") /\ AssignBegin(E.o, E.p)
     \/ Is("assign_e") /\ AssignEnd(E.o, E.p)
     \/ (Is("clear_b") \/ Is("dtor_b")) /\ ClearBegin(E.o)
     \/ (Is("clear_e") \/ Is("dtor_e")) /\ ClearEnd(E.o)
     \/ Is("release") /\ Release(E.o, E.h)
     \/ Is("reset_b") /\ ClearBegin(E.o)
     \/ Is("reset_e") /\ ResetEnd(E.o, E.h)
     \/ (Is("tcreate") \/ Is("tjoin") \/ Is("tend") \/ Is("tdetach")) /\ UNCHANGED gvars
     \/ Is("end") /\ EndOk /\ E.un = 0 /\ E.live = 0 /\ UNCHANGED gvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
