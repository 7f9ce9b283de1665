------------------------------ MODULE MCPoolImpl ------------------------------
(***************************************************************************)
(* The algorithm of the thread pool - per worker a list under a mutex with *)
(* a condition variable, pills in the list, request_stop, wait_stop and    *)
(* the destructor - step by step, refines Pool.  Every call of request_stop*)
(* owns one pill per worker, in a frame which is freed when the node behind*)
(* the pill is resumed; the destructor's one pill lies on its stack.       *)
(***************************************************************************)
EXTENDS Pool, Integers
CONSTANTS NW, Tasks, Stoppers, Again, Waits, Spurious
VARIABLES home,           \* task -> worker: what its hash selects
          lst, lk, cv,    \* queue: list, owner of the mutex (0 nobody), "none" / "waiting" / "signaled"
          wpc, batch, cur,\* worker or Main: where it is, what it took, the task it runs (0 none)
          pu,             \* thread -> push in progress [w, it, pc]
          tpc, nth,       \* task -> its next hand-over: "new", "push", "done"; hand-overs so far
          spc, si,        \* stopper -> "new", "go", "push", "done"; worker it is at
          mpc, mi,        \* the thread that waits and destroys
          joined, freed, spur, bad
ivars == <<home, lst, lk, cv, wpc, batch, cur, pu, tpc, nth, spc, si, mpc, mi, joined, freed, spur, bad>>
allvars == <<vars, ivars>>
W == 1..NW
Main == 30
Ext == 0
Th(k) == 10 + k           \* the thread that hands over task k
St(c) == 20 + c
May(a) == Assert(ENABLED a, "not allowed") /\ a
NoPush == [w |-> 0, it |-> << >>, pc |-> "none"]
Threads == W \cup {Main} \cup {Th(k) : k \in Tasks} \cup {St(c) : c \in Stoppers}
T(k) == [t |-> "task", id |-> <<k, 0>>]
Pill(x) == [t |-> "pill", id |-> x]
Self(x) == [t |-> "self", id |-> x]
DPill == Pill(<<0, 0>>)
Init == /\ PoolInit(W) /\ home \in [Tasks -> W] /\ lst = [w \in W |-> << >>] /\ lk = [w \in W |-> 0] /\ cv = [w \in W |-> "none"]
        /\ wpc = [w \in W |-> "lock"] /\ batch = [t \in W \cup {Main} |-> << >>] /\ cur = [t \in W \cup {Main} |-> 0]
        /\ pu = [t \in Threads |-> NoPush] /\ tpc = [k \in Tasks |-> "new"] /\ nth = [k \in Tasks |-> 0]
        /\ spc = [c \in Stoppers |-> "new"] /\ si = [c \in Stoppers |-> 1] /\ mpc = "idle" /\ mi = 1
        /\ joined = {} /\ freed = {} /\ spur = 0 /\ bad = FALSE
Key(k) == 100 + k
\* push_list, under the mutex; the condition is notified before it is released
StartPush(t, w, it) == pu' = [pu EXCEPT ![t] = [w |-> w, it |-> it, pc |-> "want"]]
PushLock(t) == /\ pu[t].pc = "want" /\ lk[pu[t].w] = 0 /\ lk' = [lk EXCEPT ![pu[t].w] = t] /\ pu' = [pu EXCEPT ![t].pc = "have"]
               /\ UNCHANGED <<vars, home, lst, cv, wpc, batch, cur, tpc, nth, spc, si, mpc, mi, joined, freed, spur, bad>>
PushApp(t) == LET w == pu[t].w
                  it == pu[t].it IN
  /\ pu[t].pc = "have" /\ lst' = [lst EXCEPT ![w] = @ \o it]
  /\ cv' = [cv EXCEPT ![w] = IF lst[w] = << >> /\ cv[w] = "waiting" THEN "signaled" ELSE @]
  \* a node is in one list only
  /\ bad' = (bad \/ \E i \in DOMAIN it : \E v \in W : \E j \in DOMAIN lst[v] : lst[v][j] = it[i])
  /\ (IF it[1].t = "pill" THEN (IF w \in pilled THEN UNCHANGED vars ELSE May(PutPill(w)))
      ELSE LET p == CHOOSE p \in pend : p.k = it[1].id[1] IN May(Enq(p, w)))
  /\ pu' = [pu EXCEPT ![t].pc = "unlock"]
  /\ UNCHANGED <<home, lk, wpc, batch, cur, tpc, nth, spc, si, mpc, mi, joined, freed, spur>>
PushUnlock(t) == /\ pu[t].pc = "unlock" /\ lk' = [lk EXCEPT ![pu[t].w] = 0] /\ pu' = [pu EXCEPT ![t] = NoPush]
                 /\ UNCHANGED <<vars, home, lst, cv, wpc, batch, cur, tpc, nth, spc, si, mpc, mi, joined, freed, spur, bad>>
\* handing over task k
Hand(k) == /\ tpc[k] = "new" /\ phase = "live" /\ mpc # "dtor" /\ tpc' = [tpc EXCEPT ![k] = "push"] /\ nth' = [nth EXCEPT ![k] = 1]
           /\ HandBegin(k, 1, Key(k), Th(k)) /\ StartPush(Th(k), home[k], <<T(k)>>)
           /\ UNCHANGED <<home, lst, lk, cv, wpc, batch, cur, spc, si, mpc, mi, joined, freed, spur, bad>>
Handed(k) == /\ tpc[k] = "push" /\ pu[Th(k)].pc = "none" /\ tpc' = [tpc EXCEPT ![k] = "done"] /\ May(HandEnd(k, 1))
             /\ UNCHANGED <<home, lst, lk, cv, wpc, batch, cur, pu, nth, spc, si, mpc, mi, joined, freed, spur, bad>>
\* worker w
WLock(w) == /\ wpc[w] = "lock" /\ lk[w] = 0 /\ lk' = [lk EXCEPT ![w] = w] /\ wpc' = [wpc EXCEPT ![w] = "check"]
            /\ UNCHANGED <<vars, home, lst, cv, batch, cur, pu, tpc, nth, spc, si, mpc, mi, joined, freed, spur, bad>>
WCheck(w) == /\ wpc[w] = "check" /\ lk' = [lk EXCEPT ![w] = 0]
             /\ (IF lst[w] = << >> THEN wpc' = [wpc EXCEPT ![w] = "wait"] /\ cv' = [cv EXCEPT ![w] = "waiting"] /\ UNCHANGED <<lst, batch>>
                 ELSE /\ wpc' = [wpc EXCEPT ![w] = "run"] /\ batch' = [batch EXCEPT ![w] = lst[w]] /\ lst' = [lst EXCEPT ![w] = << >>]
                      /\ UNCHANGED cv)
             /\ UNCHANGED <<vars, home, cur, pu, tpc, nth, spc, si, mpc, mi, joined, freed, spur, bad>>
WWake(w) == /\ wpc[w] = "wait" /\ (cv[w] = "signaled" \/ spur < Spurious)
            /\ spur' = (IF cv[w] = "signaled" THEN spur ELSE spur + 1)
            /\ cv' = [cv EXCEPT ![w] = "none"] /\ wpc' = [wpc EXCEPT ![w] = "lock"]
            /\ UNCHANGED <<vars, home, lst, lk, batch, cur, pu, tpc, nth, spc, si, mpc, mi, joined, freed, bad>>
Read(it) == bad' = (bad \/ (it.t # "task" /\ it.id \in freed))
WStep(w) ==
  /\ wpc[w] = "run" /\ cur[w] = 0 /\ pu[w].pc = "none"
  /\ (IF batch[w] = << >> THEN wpc' = [wpc EXCEPT ![w] = "lock"] /\ UNCHANGED <<vars, batch, cur, bad>>
      ELSE LET it == Head(batch[w]) IN
        /\ batch' = [batch EXCEPT ![w] = Tail(@)] /\ Read(it)
        /\ CASE it.t = "pill" -> wpc' = [wpc EXCEPT ![w] = "cancel"] /\ UNCHANGED <<vars, cur>>
             [] it.t = "task" -> May(Run(w, 1, w, TRUE)) /\ cur' = [cur EXCEPT ![w] = it.id[1]] /\ UNCHANGED wpc
             [] OTHER -> Assert(FALSE, "the node behind a pill was not cancelled"))
  /\ UNCHANGED <<home, lst, lk, cv, pu, tpc, nth, spc, si, mpc, mi, joined, freed, spur>>
\* the task is over, or hands itself over again
WRan(w) == /\ wpc[w] = "run" /\ cur[w] > 0 /\ May(Ran(cur[w], w)) /\ cur' = [cur EXCEPT ![w] = IF cur[w] \in Again /\ nth[cur[w]] = 1 THEN -cur[w] ELSE 0]
           /\ UNCHANGED <<home, lst, lk, cv, wpc, batch, pu, tpc, nth, spc, si, mpc, mi, joined, freed, spur, bad>>
WAgain(w) == /\ wpc[w] = "run" /\ cur[w] < 0 /\ nth[-cur[w]] = 1 /\ nth' = [nth EXCEPT ![-cur[w]] = 2] /\ May(HandBegin(-cur[w], 2, Key(-cur[w]), w))
             /\ StartPush(w, home[-cur[w]], <<T(-cur[w])>>)
             /\ UNCHANGED <<home, lst, lk, cv, wpc, batch, cur, tpc, spc, si, mpc, mi, joined, freed, spur, bad>>
WAgainEnd(w) == /\ wpc[w] = "run" /\ cur[w] < 0 /\ nth[-cur[w]] = 2 /\ pu[w].pc = "none" /\ May(HandEnd(-cur[w], 2)) /\ cur' = [cur EXCEPT ![w] = 0]
                /\ UNCHANGED <<home, lst, lk, cv, wpc, batch, pu, tpc, nth, spc, si, mpc, mi, joined, freed, spur, bad>>
\* cancel_tasks of what t holds, which came from w's queue; as: the thread as the specification knows it
Cancel(t, w, as) ==
  /\ (IF cur[t] > 0 THEN May(Ran(cur[t], as)) /\ cur' = [cur EXCEPT ![t] = 0] /\ UNCHANGED <<batch, freed, bad>>
      ELSE LET it == Head(batch[t]) IN
        /\ batch' = [batch EXCEPT ![t] = Tail(@)] /\ Read(it)
        /\ CASE it.t = "pill" -> UNCHANGED <<vars, cur, freed>>
             [] it.t = "task" -> May(Run(w, 1, as, FALSE)) /\ cur' = [cur EXCEPT ![t] = it.id[1]] /\ UNCHANGED freed
             [] OTHER -> freed' = freed \cup {it.id} /\ UNCHANGED <<vars, cur>>)
WCancel(w) == /\ wpc[w] = "cancel" /\ (batch[w] # << >> \/ cur[w] > 0) /\ Cancel(w, w, w)
              /\ UNCHANGED <<home, lst, lk, cv, wpc, pu, tpc, nth, spc, si, mpc, mi, joined, spur>>
WExit(w) == /\ wpc[w] = "cancel" /\ batch[w] = << >> /\ cur[w] = 0 /\ May(WorkerExit(w)) /\ wpc' = [wpc EXCEPT ![w] = "exit"]
            /\ UNCHANGED <<home, lst, lk, cv, batch, cur, pu, tpc, nth, spc, si, mpc, mi, joined, freed, spur, bad>>
\* request_stop
SBegin(c) == /\ spc[c] = "new" /\ phase = "live" /\ StopBegin(c) /\ spc' = [spc EXCEPT ![c] = "go"]
             /\ UNCHANGED <<home, lst, lk, cv, wpc, batch, cur, pu, tpc, nth, si, mpc, mi, joined, freed, spur, bad>>
SGo(c) == /\ spc[c] = "go" /\ pu[St(c)].pc = "none"
          /\ (IF si[c] > NW THEN May(StopEnd(c)) /\ spc' = [spc EXCEPT ![c] = "done"] /\ UNCHANGED <<pu, si>>
              ELSE /\ StartPush(St(c), si[c], <<Pill(<<c, si[c]>>), Self(<<c, si[c]>>)>>)
                   /\ si' = [si EXCEPT ![c] = @ + 1] /\ UNCHANGED <<vars, spc>>)
          /\ UNCHANGED <<home, lst, lk, cv, wpc, batch, cur, tpc, nth, mpc, mi, joined, freed, spur, bad>>
\* wait_stop: joins everybody, then cancels what is left; the destructor, with its own pill
MWait == /\ mpc = "idle" /\ Waits /\ May(WaitBegin) /\ mpc' = "join" /\ mi' = 1
         /\ UNCHANGED <<home, lst, lk, cv, wpc, batch, cur, pu, tpc, nth, spc, si, joined, freed, spur, bad>>
MJoin == /\ mpc = "join"
         /\ (IF mi > NW THEN mpc' = "pop" /\ mi' = 1 /\ UNCHANGED joined
             ELSE wpc[mi] = "exit" /\ joined' = joined \cup {mi} /\ mi' = mi + 1 /\ UNCHANGED mpc)
         /\ UNCHANGED <<vars, home, lst, lk, cv, wpc, batch, cur, pu, tpc, nth, spc, si, freed, spur, bad>>
\* pop_all and cancel_tasks of queue mi, then go to l
PopCancel(at, w, l) ==
  /\ mpc = at
  /\ \/ /\ batch[Main] = << >> /\ cur[Main] = 0 /\ lk[w] = 0 /\ batch' = [batch EXCEPT ![Main] = lst[w]] /\ lst' = [lst EXCEPT ![w] = << >>]
        /\ mpc' = l /\ UNCHANGED <<vars, home, lk, cv, wpc, cur, pu, tpc, nth, spc, si, mi, joined, freed, spur, bad>>
MCancel(at, w, l, i) ==
  /\ mpc = at
  /\ (IF batch[Main] # << >> \/ cur[Main] > 0 THEN Cancel(Main, w, Ext) /\ UNCHANGED <<mpc, mi>>
      ELSE mpc' = l /\ mi' = i /\ UNCHANGED <<vars, batch, cur, freed, bad>>)
  /\ UNCHANGED <<home, lst, lk, cv, wpc, pu, tpc, nth, spc, si, joined, spur>>
MPop == mi <= NW /\ PopCancel("pop", mi, "cancel")
MCan == mpc = "cancel" /\ MCancel("cancel", mi, "pop", mi + 1)
MWaited == /\ mpc = "pop" /\ mi > NW /\ May(WaitEnd) /\ mpc' = "waited"
           /\ UNCHANGED <<home, lst, lk, cv, wpc, batch, cur, pu, tpc, nth, spc, si, mi, joined, freed, spur, bad>>
\* the user destroys the pool when nobody uses it from outside any more
MDtor == /\ mpc = (IF Waits THEN "waited" ELSE "idle")
         /\ \A k \in Tasks : tpc[k] # "push"
         /\ \A c \in Stoppers : spc[c] # "go"
         /\ May(DtorBegin) /\ mpc' = "dtor" /\ mi' = 1
         /\ UNCHANGED <<home, lst, lk, cv, wpc, batch, cur, pu, tpc, nth, spc, si, joined, freed, spur, bad>>
MDPush == /\ mpc = "dtor"
          /\ (IF mi > NW THEN mpc' = "dpop" /\ mi' = 1 /\ UNCHANGED pu
              ELSE IF mi \in joined THEN mi' = mi + 1 /\ UNCHANGED <<mpc, pu>>
              ELSE StartPush(Main, mi, <<DPill>>) /\ mpc' = "djoin" /\ UNCHANGED mi)
          /\ UNCHANGED <<vars, home, lst, lk, cv, wpc, batch, cur, tpc, nth, spc, si, joined, freed, spur, bad>>
MDJoin == /\ mpc = "djoin" /\ pu[Main].pc = "none" /\ wpc[mi] = "exit" /\ joined' = joined \cup {mi} /\ mpc' = "dpop1"
          /\ UNCHANGED <<vars, home, lst, lk, cv, wpc, batch, cur, pu, tpc, nth, spc, si, mi, freed, spur, bad>>
MDPop1 == mpc = "dpop1" /\ PopCancel("dpop1", mi, "dcancel1")
MDCan1 == mpc = "dcancel1" /\ MCancel("dcancel1", mi, "dtor", mi + 1)
MDPop == mi <= NW /\ PopCancel("dpop", mi, "dcancel")
MDCan == mpc = "dcancel" /\ MCancel("dcancel", mi, "dpop", mi + 1)
MDead == /\ mpc = "dpop" /\ mi > NW /\ May(DtorEnd) /\ mpc' = "dead"
         /\ UNCHANGED <<home, lst, lk, cv, wpc, batch, cur, pu, tpc, nth, spc, si, mi, joined, freed, spur, bad>>
Over == mpc = "dead" /\ UNCHANGED allvars
Next == \/ \E t \in Threads : PushLock(t) \/ PushApp(t) \/ PushUnlock(t)
        \/ \E k \in Tasks : Hand(k) \/ Handed(k)
        \/ \E w \in W : WLock(w) \/ WCheck(w) \/ WWake(w) \/ WStep(w) \/ WRan(w) \/ WAgain(w) \/ WAgainEnd(w) \/ WCancel(w) \/ WExit(w)
        \/ \E c \in Stoppers : SBegin(c) \/ SGo(c)
        \/ MWait \/ MJoin \/ MPop \/ MCan \/ MWaited \/ MDtor \/ MDPush \/ MDJoin \/ MDPop1 \/ MDCan1 \/ MDPop \/ MDCan \/ MDead
        \/ Over
Spec == Init /\ [][Next]_allvars
-----------------------------------------------------------------------------
Sound == ~bad
\* every pill's frame is freed, and no queue holds anything
Clean == mpc = "dead" => /\ \A w \in W : lst[w] = << >> /\ batch[w] = << >>
                         /\ freed = {<<c, w>> : c \in {x \in Stoppers : spc[x] = "done"}, w \in W}
                         /\ \A k \in Tasks : tpc[k] = "done" => nth[k] \in {1, 2}
\* no worker sleeps on a queue that is not empty, unless it is being told
NoLostWakeup == \A w \in W : wpc[w] = "wait" /\ cv[w] = "waiting" /\ lk[w] = 0 => lst[w] = << >>
=============================================================================
