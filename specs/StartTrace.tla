------------------------------- MODULE StartTrace -------------------------------
EXTENDS Start, TraceBatch
tvars == <<stvars, tid, pos>>
TInit == BatchInit /\ StInit
TNext ==
  /\ More /\ Step
  /\ \/ E.e = "make" /\ Make(E.t, E.p, E.n)
     \/ E.e = "made" /\ Made(E.t, E.p)
     \/ E.e = "fail" /\ Failed(E.t, E.p, E.what, E.left)
     \/ E.e = "inject" /\ Inject(E.t, E.what)
     \/ E.e = "tcreate" /\ Created(E.t, E.c)
     \/ E.e = "tend" /\ Ended(E.t)
     \/ E.e = "tjoin" /\ Joined(E.c)
     \/ E.e = "sched" /\ Sched(E.t, E.k, E.p)
     \/ E.e = "sched_e" /\ AcceptedTask(E.t, E.k)
     \/ E.e = "sched_x" /\ RefusedTask(E.t, E.k, E.what)
     \/ E.e = "ran" /\ Ran(E.t, E.k)
     \/ E.e = "shape" /\ Shape(E.t, E.p, E.ws, E.qs, E.all = 1, E.me = 1)
     \/ E.e = "isw" /\ IsWorker(E.t, E.k, E.ret = 1)
     \/ E.e = "gone" /\ Gone(E.k)
     \/ E.e = "allran" /\ AllRan(E.p)
     \/ E.e = "destroy" /\ Destroy(E.t, E.p)
     \/ E.e = "destroyed" /\ Destroyed(E.t, E.p, E.left)
     \/ E.e = "end" /\ Done /\ E.live = 0 /\ E.un = 0 /\ UNCHANGED stvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
