---------------------------- MODULE StackResTrace ----------------------------
EXTENDS StackRes, TraceBatch
tvars == <<svars, tid, pos>>
TInit == BatchInit /\ SInit
TNext ==
  /\ More /\ Step
  /\ \/ E.e = "create" /\ Create(E.r, E.b, E.n)
     \/ E.e = "alloc_b" /\ Begin(E.r, "alloc", E.n)
     \/ E.e = "alloc_e" /\ Allocated(E.b, E.o, E.al)
     \/ E.e = "alloc_x" /\ Failed
     \/ E.e = "dealloc" /\ Dealloc(E.r, E.ok = 1)
     \/ E.e = "reuse" /\ Reuse(E.r, E.ok = 1)
     \/ E.e = "look" /\ Look(E.r, E.ok = 1)
     \/ E.e = "move" /\ Move(E.r, E.q)
     \/ E.e = "assign" /\ Assigned(E.r, E.q)
     \/ E.e = "destroy_b" /\ Begin(E.r, "destroy", 0)
     \/ E.e = "destroy_e" /\ Destroyed(E.stays = 1)
     \/ E.e = "sysnew" /\ SysNew(E.b, E.n)
     \/ E.e = "sysdel" /\ SysDel(E.b)
     \/ E.e = "inject" /\ call.what = "alloc" /\ UNCHANGED svars
     \/ E.e = "end" /\ Done /\ E.live = 0
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
