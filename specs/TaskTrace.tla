------------------------------ MODULE TaskTrace ------------------------------
EXTENDS Task, TraceBatch
VARIABLES told,  \* ended tasks which surely have told their waiter
          fresh  \* thread -> the task whose body just ended on it
tvars == <<kvars, told, fresh, tid, pos>>
TInit == BatchInit /\ KInit /\ told = {} /\ fresh = << >>
H == T.cfg.hooks = 1
B(x) == x = 1
\* events after which a just ended body has not surely told its waiter
SelfEv == E.e \in {"cend", "free"} /\ Dom(fresh, E.t) /\ fresh[E.t] = E.k
\* a waiter on an ended task continues before anything else happens on its thread
NotImm == ~Dom(imm, E.t)
Right == IF Dom(imm, E.t) THEN imm[E.t] = E.w ELSE TRUE
Act ==
  \/ Is("make") /\ Make(E.k)
  \/ Is("owner") /\ OwnerHook(E.k, E.by)
  \/ Is("cstart") /\ StartHook(E.k)
  \/ Is("cend") /\ EndHook(E.k)
  \/ Is("body_b") /\ BodyBegin(E.k, H)
  \/ Is("step") /\ BodyStep(E.k)
  \/ Is("await_b") /\ AwaitBegin(E.w, E.k, E.t)
  \/ Is("get_b") /\ GetBegin(E.w, E.k, E.t)
  \/ Is("drop_b") /\ DropBegin(E.k)
  \/ Is("drop_e") /\ DropEnd(E.k)
  \/ Is("free") /\ Free(E.k, H)
  \/ Is("sad_b") /\ SadBegin(E.k, B(E.stop))
  \/ Is("sad_e") /\ SadEnd(E.k, B(E.empty))
  \/ Is("loose") /\ Loose(E.k, B(E.empty))
  \/ Is("is_empty") /\ B(E.ret) /\ UNCHANGED kvars
  \/ Is("all_b") /\ GroupBegin(E.w, E.g, E.ks, TRUE, FALSE)
  \/ Is("any_b") /\ GroupBegin(E.w, E.g, E.ks, FALSE, FALSE)
  \/ Is("any_keep") /\ GroupBegin(E.w, E.g, E.ks, FALSE, TRUE)
  \/ Is("any_drop") /\ AnyDrop(E.w, E.g)
  \/ Is("all_e") /\ AllEnd(E.w, E.g, E.ok, E.vs, H)
  \/ Is("any_e") /\ AnyEnd(E.w, E.g, E.i, E.v, H)
  \/ Is("any_f") /\ AnyFail(E.w, E.g, E.i, E.v, H)
  \/ Is("kept") /\ Kept(E.k, B(E.done))
  \/ Is("quiet") /\ QuietOk /\ UNCHANGED kvars
  \/ (Is("tcreate") \/ Is("tjoin") \/ Is("tend") \/ Is("tdetach")) /\ UNCHANGED kvars
  \/ Is("end") /\ EndOk /\ E.un = 0 /\ E.live = 0 /\ UNCHANGED kvars
TNext ==
  /\ More
  /\ Step
  /\ \/ Is("body_e") /\ NotImm /\ BodyEnd(E.k, E.kind, E.v, told)
     \/ (Is("await_e") \/ Is("get_e")) /\ Right /\ AwaitEnd(E.w, E.k, E.kind, E.v, E.t, H)
     \/ Is("wait_e") /\ Right /\ WaitEnd(E.w, E.k, E.t, H)
     \/ NotImm /\ Act
  /\ told' = IF Dom(fresh, E.t) /\ ~SelfEv THEN told \cup {fresh[E.t]} ELSE told
  /\ fresh' = IF E.e = "body_e" THEN Put(fresh, E.t, E.k) ELSE IF SelfEv THEN fresh ELSE Del(fresh, E.t)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
