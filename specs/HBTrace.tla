------------------------------- MODULE HBTrace -------------------------------
(* events: <<kind, thread, object, order>>; <<"a", thread, reads, writes, atomic reads, atomic writes>> *)
EXTENDS HB, TraceBatch
tvars == <<hvars, tid, pos>>
TInit == BatchInit /\ HInit(T.n, T.no, T.nl)
K == E[1]
Th == E[2] + 1
S(i) == {E[i][k] : k \in DOMAIN E[i]}
TNext ==
  /\ More /\ Step
  /\ \/ K = "a" /\ Access(Th, S(3), S(4), S(5), S(6))
     \/ K = "R" /\ Load(Th, E[3], E[4])
     \/ K = "W" /\ Store(Th, E[3], E[4])
     \/ K = "X" /\ Rmw(Th, E[3], E[4])
     \/ K = "F" /\ Fence(Th, E[4])
     \/ K = "l" /\ Lock(Th, E[3])
     \/ K = "u" /\ Unlock(Th, E[3])
     \/ K = "c" /\ Create(Th, E[3] + 1)
     \/ K = "j" /\ JoinThread(Th, E[3] + 1)
     \/ K = "q" /\ Quiescence(Th)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
