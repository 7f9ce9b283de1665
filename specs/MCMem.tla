-------------------------------- MODULE MCMem --------------------------------
(***************************************************************************)
(* How the library finds a coroutine's resource and lays out its frame,    *)
(* step by step, next to Mem: whatever threads pass, set, create and       *)
(* destroy, Mem allows it.  The resource lies behind the frame, aligned,   *)
(* and deletion finds it and the size of the block again from the frame's  *)
(* address and size alone.                                                 *)
(***************************************************************************)
EXTENDS Mem
CONSTANTS Threads, Resources, MaxC, MaxSets, Sizes, Kinds
VARIABLES tls,     \* thread -> passed resource, 0: none
          dflt,
          pc, reg, \* of each thread
          frames,  \* block -> [res, sz, k]: live frames; what is written behind the frame
          nc, ns, refused  \* calls and settings so far; something Mem does not allow has happened
vars == <<mvars, tls, dflt, pc, reg, frames, nc, ns, refused>>

\* kinds of resources: size 0 (empty), or size and alignment
KSz(k) == k[1]
KAl(k) == k[2]
Pad(sz, al) == (al - (sz % al)) % al
Where(sz, k) == sz + Pad(sz, KAl(k))                          \* of the resource in the block
Total(sz, k) == IF KSz(k) = 0 THEN sz ELSE Where(sz, k) + KSz(k)

Init ==
  /\ MInit(1) /\ tls = [t \in Threads |-> 0] /\ dflt = 1
  /\ pc = [t \in Threads |-> "idle"] /\ reg = [t \in Threads |-> << >>]
  /\ frames = << >> /\ nc = 0 /\ ns = 0 /\ refused = FALSE
Go(t, l, x) == pc' = [pc EXCEPT ![t] = l] /\ reg' = [reg EXCEPT ![t] = x]
\* what the library does, if Mem allows it
May(a) == IF ENABLED a THEN a /\ refused' = FALSE ELSE refused' = TRUE /\ UNCHANGED mvars

DoPass(t, r) ==
  /\ pc[t] = "idle" /\ Pass(t, r) /\ tls' = [tls EXCEPT ![t] = r] /\ refused' = FALSE
  /\ UNCHANGED <<dflt, pc, reg, frames, nc, ns>>
Create(t, sz, k) ==
  /\ pc[t] = "idle" /\ nc < MaxC /\ nc' = nc + 1
  /\ Go(t, "take", [c |-> nc + 1, sz |-> sz, k |-> k, r |-> 0])
  /\ Call(t, nc + 1, Polymorphic) /\ refused' = FALSE
  /\ UNCHANGED <<tls, dflt, frames, ns>>
CreateWith(t, r, sz, k) ==
  /\ pc[t] = "idle" /\ nc < MaxC /\ nc' = nc + 1
  /\ Go(t, "alloc", [c |-> nc + 1, sz |-> sz, k |-> k, r |-> r])
  /\ Call(t, nc + 1, r) /\ refused' = FALSE
  /\ UNCHANGED <<tls, dflt, frames, ns>>
Take(t) ==
  /\ pc[t] = "take"
  /\ Go(t, IF tls[t] = 0 THEN "load" ELSE "alloc", [reg[t] EXCEPT !.r = tls[t]])
  /\ tls' = [tls EXCEPT ![t] = 0] /\ UNCHANGED <<mvars, dflt, frames, nc, ns, refused>>
Load(t) == pc[t] = "load" /\ Go(t, "alloc", [reg[t] EXCEPT !.r = dflt])
           /\ UNCHANGED <<mvars, tls, dflt, frames, nc, ns, refused>>
AllocStep(t) ==
  /\ pc[t] = "alloc"
  /\ LET x == reg[t]
         b == CHOOSE n \in 1..(MaxC + 1) : n \notin DOMAIN held IN
     /\ May(Alloc(t, x.r, b, Total(x.sz, x.k), Where(x.sz, x.k) % (IF KSz(x.k) = 0 THEN 1 ELSE KAl(x.k))))
     /\ frames' = (b :> [res |-> x.r, sz |-> x.sz, k |-> x.k]) @@ frames
     /\ Go(t, "ret", x)
  /\ UNCHANGED <<tls, dflt, nc, ns>>
NoMemory(t) == pc[t] = "alloc" /\ May(Refused(t, reg[t].c)) /\ Go(t, "idle", << >>)
               /\ UNCHANGED <<tls, dflt, frames, nc, ns>>
Ret(t) == pc[t] = "ret" /\ May(Returned(t, reg[t].c)) /\ Go(t, "idle", << >>) /\ UNCHANGED <<tls, dflt, frames, nc, ns>>
Destroy(t, b) ==
  /\ pc[t] = "idle" /\ b \in DOMAIN frames
  /\ LET f == frames[b] IN May(Free(f.res, b, Total(f.sz, f.k), Where(f.sz, f.k) % (IF KSz(f.k) = 0 THEN 1 ELSE KAl(f.k))))
  /\ frames' = Less(frames, b) /\ UNCHANGED <<tls, dflt, pc, reg, nc, ns>>
Set(t, r) ==
  /\ pc[t] = "idle" /\ ns < MaxSets /\ ns' = ns + 1
  /\ SetBegin(t, r) /\ refused' = FALSE /\ Go(t, "swap", [r |-> r]) /\ UNCHANGED <<tls, dflt, frames, nc>>
Swap(t) ==
  /\ pc[t] = "swap" /\ Go(t, "swapped", [r |-> dflt]) /\ dflt' = reg[t].r
  /\ SetEffect(t) /\ refused' = FALSE /\ UNCHANGED <<tls, frames, nc, ns>>
SetRet(t) == pc[t] = "swapped" /\ May(SetEnd(t, reg[t].r)) /\ Go(t, "idle", << >>) /\ UNCHANGED <<tls, dflt, frames, nc, ns>>
Next ==
  /\ ~refused
  /\ \E t \in Threads :
     \/ \E r \in Resources : DoPass(t, r) \/ Set(t, r) \/ \E sz \in Sizes, k \in Kinds : CreateWith(t, r, sz, k)
     \/ \E sz \in Sizes, k \in Kinds : Create(t, sz, k)
     \/ Take(t) \/ Load(t) \/ AllocStep(t) \/ NoMemory(t) \/ Ret(t) \/ Swap(t) \/ SetRet(t)
     \/ \E b \in DOMAIN frames : Destroy(t, b)
Spec == Init /\ [][Next]_vars

Allowed == ~refused
KindsQ == {<<8, 8>>}
KindsAll == {<<0, 1>>, <<1, 1>>, <<6, 2>>, <<24, 8>>, <<48, 16>>}
SizesAll == {17, 24, 32, 33, 40}
\* the frame and the resource behind it fit and do not overlap
LayoutOk == \A sz \in Sizes, k \in Kinds :
  /\ Where(sz, k) >= sz /\ Where(sz, k) % KAl(k) = 0
  /\ KSz(k) > 0 => Where(sz, k) + KSz(k) <= Total(sz, k)
  /\ Total(sz, k) - sz < KAl(k) + KSz(k)
\* nothing is lost: every block is a frame's
Held == \A b \in DOMAIN held : b \in DOMAIN frames
Same == \A t \in Threads : (pc[t] = "idle" => Stack(t) = << >>) /\ (pc[t] \in {"idle", "swap", "swapped"} => tls[t] = Get(passed, t, 0))
Default == dflt = deflt
=============================================================================
