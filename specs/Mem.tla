---------------------------------- MODULE Mem ----------------------------------
(***************************************************************************)
(* Where coroutine frames come from and go to.  A frame is taken from the  *)
(* resource chosen for the coroutine - passed to it, made by default for   *)
(* its type, or polymorphic: passed for the next coroutine of the thread,  *)
(* else the default - and is given back to it once, as it was taken.  A    *)
(* thread pool takes its storage and its tasks from the resource given.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES calls,    \* thread -> calls in progress, the innermost last:
                    \*   [c (coroutine, -p: pool, 0: question), r, may (resources it may use),
                    \*    open (a new default counts), got (block)]
          held,     \* block -> [r, n]: memory taken from resources
          passed,   \* thread -> resource passed for the next coroutine, 0: none
          deflt,    \* default resource
          setting,  \* set_default_resource in progress: thread -> [new, old (0: not yet effective)]
          pools     \* pool -> resource
mvars == <<calls, held, passed, deflt, setting, pools>>

MInit(d) == calls = << >> /\ held = << >> /\ passed = << >> /\ deflt = d /\ setting = << >> /\ pools = << >>
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Stack(t) == Get(calls, t, << >>)
Top(t) == Stack(t)[Len(Stack(t))]
In(t, c) == IF Stack(t) = << >> THEN FALSE ELSE Top(t).c = c
Push(t, x) == calls' = (t :> Append(Stack(t), x)) @@ calls
Pop(t) == calls' = (t :> SubSeq(Stack(t), 1, Len(Stack(t)) - 1)) @@ calls
Less(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

ByDefault == 0       \* the type names the resource and can make it
Polymorphic == -1

\* a coroutine is called
Call(t, c, r) ==
  /\ Push(t, [c |-> c, r |-> r, got |-> 0,
              may |-> IF r = ByDefault THEN {} ELSE IF r # Polymorphic THEN {r}
                      ELSE IF Get(passed, t, 0) # 0 THEN {passed[t]} ELSE {deflt},
              open |-> r = Polymorphic /\ Get(passed, t, 0) = 0])
  \* whatever comes next on this thread does not get it
  /\ passed' = IF r = Polymorphic THEN (t :> 0) @@ passed ELSE passed
  /\ UNCHANGED <<held, deflt, setting, pools>>
\* the library made a resource of the coroutine's type
Made(t, r) ==
  /\ calls' = IF Stack(t) = << >> THEN calls
              ELSE IF Top(t).r # ByDefault THEN calls ELSE [calls EXCEPT ![t][Len(Stack(t))].may = @ \cup {r}]
  /\ UNCHANGED <<held, passed, deflt, setting, pools>>
\* n bytes at b, off: distance from an aligned address (of the memory or of the resource's own object)
Alloc(t, r, b, n, off) ==
  /\ Stack(t) # << >> /\ b # 0 /\ b \notin DOMAIN held
  /\ (off = 0 \/ Top(t).c < 0)              \* a pool's own storage is aligned as it asks
  /\ r \in Top(t).may
  /\ (Top(t).c < 0 \/ Top(t).got = 0)      \* one frame only; a pool takes as often as it likes
  /\ calls' = [calls EXCEPT ![t][Len(Stack(t))].got = b]
  /\ held' = (b :> [r |-> r, n |-> n]) @@ held
  /\ UNCHANGED <<passed, deflt, setting, pools>>
Free(r, b, n, off) ==
  /\ b \in DOMAIN held /\ held[b] = [r |-> r, n |-> n] /\ off = 0
  /\ held' = Less(held, b) /\ UNCHANGED <<calls, passed, deflt, setting, pools>>
Returned(t, c) == In(t, c) /\ Top(t).got # 0 /\ Pop(t) /\ UNCHANGED <<held, passed, deflt, setting, pools>>
\* it failed before the coroutine existed: nothing of it is left
Refused(t, c) == In(t, c) /\ Top(t).got \notin DOMAIN held /\ Pop(t)
                 /\ UNCHANGED <<held, passed, deflt, setting, pools>>

\* --- pools
PoolBegin(t, p, r) ==
  /\ p \notin DOMAIN pools /\ pools' = (p :> r) @@ pools
  /\ Push(t, [c |-> -p, r |-> r, got |-> 0, may |-> {r}, open |-> FALSE])
  /\ UNCHANGED <<held, passed, deflt, setting>>
PoolMade(t, p) == In(t, -p) /\ Top(t).got # 0 /\ Pop(t) /\ UNCHANGED <<held, passed, deflt, setting, pools>>
PoolRes(p, r) == pools[p] = r /\ UNCHANGED mvars
\* what the pool keeps (its queues, its threads) lies in memory it took from its resource;
\* a block may start some bytes before what was given out
Slack == 48
PoolStore(p, b, off, n) ==
  /\ IF b \in DOMAIN held THEN held[b].r = pools[p] /\ off >= 0 /\ off + n <= held[b].n + Slack ELSE FALSE
  /\ UNCHANGED mvars
PoolCall(t, c, p) == Call(t, c, pools[p])

\* --- the polymorphic resource
Pass(t, r) == passed' = (t :> r) @@ passed /\ UNCHANGED <<calls, held, deflt, setting, pools>>
SetBegin(t, r) == setting' = (t :> [new |-> r, old |-> 0]) @@ setting /\ UNCHANGED <<calls, held, passed, deflt, pools>>
SetEffect(t) ==
  /\ t \in DOMAIN setting /\ setting[t].old = 0
  /\ setting' = [setting EXCEPT ![t].old = deflt] /\ deflt' = setting[t].new
  /\ calls' = [u \in DOMAIN calls |-> [i \in DOMAIN calls[u] |->
                 IF calls[u][i].open THEN [calls[u][i] EXCEPT !.may = @ \cup {setting[t].new}] ELSE calls[u][i]]]
  /\ UNCHANGED <<held, passed, pools>>
SetEnd(t, ret) ==
  /\ IF t \in DOMAIN setting THEN setting[t].old = ret /\ ret # 0 ELSE FALSE
  /\ setting' = Less(setting, t) /\ UNCHANGED <<calls, held, passed, deflt, pools>>
\* asking what the default is
AskBegin(t) == Push(t, [c |-> 0, r |-> Polymorphic, got |-> 0, may |-> {deflt}, open |-> TRUE])
               /\ UNCHANGED <<held, passed, deflt, setting, pools>>
AskEnd(t, ret) == In(t, 0) /\ ret \in Top(t).may /\ Pop(t) /\ UNCHANGED <<held, passed, deflt, setting, pools>>
Done == held = << >> /\ (\A t \in DOMAIN calls : calls[t] = << >>) /\ UNCHANGED mvars
=============================================================================
