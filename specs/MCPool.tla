------------------------------- MODULE MCPool -------------------------------
(***************************************************************************)
(* Small closed instance of Pool: some tasks handed over by any thread,    *)
(* stop requests, a waiter and the destructor, with the properties C01-C04 *)
(* stated over the history, not over the queues.                           *)
(***************************************************************************)
EXTENDS Pool
CONSTANTS Workers, Tasks, MaxHands, Stoppers, KeyOf(_)

VARIABLES hands,   \* task -> hand-overs begun
          ended,   \* hand-overs that returned (or took effect, for the task itself)
          befores, \* pairs <<a, b>>: hand-over a had returned when b began
          calm,    \* hand-overs that returned before any stop began
          tardy,   \* hand-overs begun after some stop had returned
          stopped, \* stop calls that returned
          hist,    \* sequence of [k, n, w, t, ok]
          waiting, \* 0 not begun, 1 in progress, 2 done
          owed     \* hand-overs that had returned when the wait began

hv == <<hands, ended, befores, calm, tardy, stopped, hist, waiting, owed>>
mvars == <<vars, hv>>
Ext == 0  \* an outside thread

StdKey(k) == IF k = 3 THEN 103 ELSE 1
Cur(k) == <<k, hands[k]>>
Init ==
  /\ PoolInit(Workers)
  /\ hands = [k \in Tasks |-> 0] /\ ended = {} /\ befores = {} /\ calm = {} /\ tardy = {}
  /\ stopped = {} /\ hist = << >> /\ waiting = 0 /\ owed = {}

\* nobody hands over work once the destructor runs (a use-after-destruction by the user)
Hand(k) ==
  /\ phase = "live" /\ hands[k] < MaxHands
  /\ HandBegin(k, hands[k] + 1, KeyOf(k), Ext)
  /\ hands' = [hands EXCEPT ![k] = @ + 1]
  /\ befores' = befores \cup {<<a, <<k, hands[k] + 1>>>> : a \in ended}
  /\ tardy' = IF stopped # {} THEN tardy \cup {<<k, hands[k] + 1>>} ELSE tardy
  /\ UNCHANGED <<ended, calm, stopped, hist, waiting, owed>>
MEnq(p, w) == Enq(p, w) /\ UNCHANGED hv
Ret(k) ==  \* the hand-over returns
  /\ hands[k] > 0 /\ Cur(k) \notin ended /\ HandEnd(k, hands[k])
  /\ ended' = ended \cup {Cur(k)}
  /\ calm' = IF stops = {} /\ stopped = {} /\ phase = "live" THEN calm \cup {Cur(k)} ELSE calm
  /\ UNCHANGED <<hands, befores, tardy, stopped, hist, waiting, owed>>
\* workers run their own queue in order; whoever waits cancels what is left
MRun(w) ==
  /\ q[w] # << >>
  /\ LET it == q[w][1] IN
     \/ /\ w \notin exited
        /\ Run(w, 1, w, ~it.late)
        /\ hist' = Append(hist, [k |-> it.k, n |-> hands[it.k], w |-> w, t |-> w, ok |-> ~it.late])
     \/ /\ w \in exited /\ (waiting = 1 \/ phase = "dtor")
        /\ Run(w, 1, Ext, FALSE)
        /\ hist' = Append(hist, [k |-> it.k, n |-> hands[it.k], w |-> w, t |-> Ext, ok |-> FALSE])
  /\ UNCHANGED <<hands, ended, befores, calm, tardy, stopped, waiting, owed>>
MRan == \E b \in busy : Ran(b.k, b.t) /\ UNCHANGED hv
MStopB(c) == phase = "live" /\ c \notin stopped /\ ~(\E s \in stops : s.c = c) /\ StopBegin(c) /\ UNCHANGED hv
MPill(w) == PutPill(w) /\ UNCHANGED hv
MStopE == \E s \in stops : StopEnd(s.c) /\ ws \subseteq pilled /\ stopped' = stopped \cup {s.c}
          /\ UNCHANGED <<hands, ended, befores, calm, tardy, hist, waiting, owed>>
\* a worker leaves when it has seen its pill: everything in front of it is done
MExit(w) ==
  /\ w \in pilled /\ w \notin exited /\ \A i \in 1..Len(q[w]) : q[w][i].late
  /\ \A b \in busy : b.t # w
  /\ WorkerExit(w) /\ UNCHANGED hv
MWaitB == waiting = 0 /\ phase = "live" /\ WaitBegin /\ waiting' = 1 /\ owed' = ended
          /\ UNCHANGED <<hands, ended, befores, calm, tardy, stopped, hist>>
MWaitE == waiting = 1 /\ exited = ws /\ busy = {} /\ WaitEnd /\ waiting' = 2
          /\ UNCHANGED <<hands, ended, befores, calm, tardy, stopped, hist, owed>>
MDtorB == waiting # 1 /\ stops = {} /\ pend = {} /\ DtorBegin /\ UNCHANGED hv
MDtorE == DtorEnd /\ exited = ws /\ UNCHANGED hv

Next ==
  \/ \E k \in Tasks : Hand(k) \/ Ret(k)
  \/ \E p \in pend, w \in ws : MEnq(p, w)
  \/ \E w \in ws : MRun(w) \/ MPill(w) \/ MExit(w)
  \/ MRan \/ MStopE \/ MWaitB \/ MWaitE \/ MDtorB \/ MDtorE
  \/ \E c \in Stoppers : MStopB(c)
System ==
  \/ \E p \in pend, w \in ws : MEnq(p, w)
  \/ \E w \in ws : MRun(w) \/ MPill(w) \/ MExit(w)
  \/ MRan \/ MStopE \/ MWaitE \/ MDtorE \/ \E k \in Tasks : Ret(k)
Spec == Init /\ [][Next]_mvars /\ WF_mvars(System)

-----------------------------------------------------------------------------
\* C01
RunOf(x) == {i \in 1..Len(hist) : <<hist[i].k, hist[i].n>> = x}
Handed == {<<k, n>> : k \in Tasks, n \in 1..MaxHands} \cap {x \in Tasks \X (1..MaxHands) : x[2] <= hands[x[1]]}
AtMostOnce == \A x \in Handed : Cardinality(RunOf(x)) <= 1
NotInvented == \A i \in 1..Len(hist) : <<hist[i].k, hist[i].n>> \in Handed
CompleteAtEnd == phase = "dead" => \A x \in Handed : Cardinality(RunOf(x)) = 1
\* without any stop or wait everything handed over is resumed
NeverLost == \A k \in Tasks : \A n \in 1..MaxHands : (hands[k] >= n) ~> (RunOf(<<k, n>>) # {} \/ exited = ws)
\* C02
Fifo == \A i, j \in 1..Len(hist) :
          hist[i].w = hist[j].w /\ <<(<<hist[i].k, hist[i].n>>), (<<hist[j].k, hist[j].n>>)>> \in befores => i < j
Serial == \A b1, b2 \in busy : b1.w = b2.w => b1 = b2
\* C03
CalmRunsOk == \A i \in 1..Len(hist) : <<hist[i].k, hist[i].n>> \in calm => hist[i].ok
TardyCancelled == \A i \in 1..Len(hist) : <<hist[i].k, hist[i].n>> \in tardy => ~hist[i].ok
WaitComplete == waiting = 2 => exited = ws /\ \A x \in owed : RunOf(x) # {}
\* C04
SameKeySameWorker == \A i, j \in 1..Len(hist) :
   KeyOf(hist[i].k) = KeyOf(hist[j].k) /\ hist[i].ok /\ hist[j].ok => hist[i].t = hist[j].t /\ hist[i].t \in Workers
Props == AtMostOnce /\ NotInvented /\ CompleteAtEnd /\ Fifo /\ Serial /\ CalmRunsOk /\ TardyCancelled
         /\ WaitComplete /\ SameKeySameWorker
=============================================================================
