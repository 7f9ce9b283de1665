-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* The thread pool / worker / strand as its users see it: every worker    *)
(* owns a FIFO queue; a task is handed over under a key (its operation     *)
(* hash, or its own identity) and keys are routed to workers; a stop       *)
(* request puts a pill behind everything queued so far.  Work behind a     *)
(* pill is resumed as cancelled by the worker or by whoever waits.         *)
(* The Ck* constants select which guarantee a configuration enforces.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS CkFifo,   \* C02: first in first out, one at a time
          CkStop,   \* C03: ok / cancelled, workers exit
          CkRoute   \* C04: "none", "strand" (explicit hashes) or "all" keys

VARIABLES ws,       \* the worker threads
          route,    \* key -> worker, bound when first used
          q,        \* worker -> sequence of [k, key, late]
          pilled,   \* workers behind whose queue a pill was put
          exited,   \* workers that ended
          pend,     \* hand-overs begun and not yet effective: [k, n, key, t]; n-th hand-over of k, by thread t
          busy,     \* tasks being executed: [k, w, t]
          stops,    \* stop requests in progress: [c, todo]
          waits,    \* tasks which a wait_stop must not leave behind: queued when it began or when the last worker left
          phase     \* "live", "dtor" (destructor running), "dead"

vars == <<ws, route, q, pilled, exited, pend, busy, stops, waits, phase>>

\* Stands for the queue of some worker that an observer cannot tell: a task none
\* of whose key ever ran on a worker (it was cancelled by whoever waits).
Limbo == 99
PoolInit(workers) ==
  /\ ws = workers
  /\ route = << >>
  /\ q = [w \in workers \cup {Limbo} |-> << >>]
  /\ pilled = {} /\ exited = {} /\ pend = {} /\ busy = {} /\ stops = {}
  /\ waits = {} /\ phase = "live"

Queued == UNION {{q[w][i].k : i \in 1..Len(q[w])} : w \in DOMAIN q}
Pending == {p.k : p \in pend}
PendingNth(k, n) == \E p \in pend : p.k = k /\ p.n = n
Running == {b.k : b \in busy}
IsStrandKey(key) == key < 100

HandBegin(k, n, key, t) ==
  /\ k \notin Queued \cup Pending \cup Running
  /\ pend' = pend \cup {[k |-> k, n |-> n, key |-> key, t |-> t]}
  /\ UNCHANGED <<ws, route, q, pilled, exited, busy, stops, waits, phase>>

\* the hand-over takes effect: an atomic append to the queue of the key's worker
Enq(p, w) ==
  /\ p \in pend
  /\ p.key \in DOMAIN route => w = route[p.key]
  /\ route' = IF p.key \in DOMAIN route THEN route ELSE route @@ (p.key :> w)
  /\ q' = [q EXCEPT ![w] = Append(@, [k |-> p.k, key |-> p.key, late |-> IF w = Limbo THEN pilled # {} ELSE w \in pilled])]
  /\ pend' = pend \ {p}
  /\ UNCHANGED <<ws, pilled, exited, busy, stops, waits, phase>>

HandEnd(k, n) == ~PendingNth(k, n) /\ UNCHANGED vars

\* item i of worker w's queue is resumed on thread t
Run(w, i, t, ok) ==
  LET it == q[w][i] IN
  /\ CkFifo => IF w = Limbo THEN ~ok /\ \A j \in 1..(i-1) : q[w][j].key # it.key
                            ELSE i = 1 /\ \A b \in busy : b.w # w
  /\ CkStop => (ok <=> ~it.late)
  /\ CkRoute = "all" /\ ok => t = w
  /\ CkRoute = "strand" /\ ok /\ IsStrandKey(it.key) => t = w
  /\ q' = [q EXCEPT ![w] = SubSeq(@, 1, i-1) \o SubSeq(@, i+1, Len(@))]
  /\ busy' = busy \cup {[k |-> it.k, w |-> w, t |-> t]}
  /\ waits' = waits \ {it.k}
  /\ UNCHANGED <<ws, route, pilled, exited, pend, stops, phase>>

Ran(k, t) ==
  /\ \E b \in busy : b.k = k /\ b.t = t /\ busy' = busy \ {b}
  /\ UNCHANGED <<ws, route, q, pilled, exited, pend, stops, waits, phase>>

StopBegin(c) ==
  /\ stops' = stops \cup {[c |-> c, todo |-> ws]}
  /\ UNCHANGED <<ws, route, q, pilled, exited, pend, busy, waits, phase>>
PutPill(w) ==
  /\ w \notin pilled
  /\ phase = "dtor" \/ \E s \in stops : w \in s.todo
  /\ pilled' = pilled \cup {w}
  /\ UNCHANGED <<ws, route, q, exited, pend, busy, stops, waits, phase>>
StopEnd(c) ==
  /\ CkStop => ws \subseteq pilled
  /\ stops' = {s \in stops : s.c # c}
  /\ UNCHANGED <<ws, route, q, pilled, exited, pend, busy, waits, phase>>

WorkerExit(w) ==
  /\ w \in ws \ exited
  /\ CkStop => /\ w \in pilled
               /\ \A i \in 1..Len(q[w]) : q[w][i].late
               /\ \A b \in busy : b.w = w => b.t # w
  /\ \A p \in pend : p.t # w
  /\ exited' = exited \cup {w}
  /\ waits' = IF exited' = ws THEN waits \cup Queued ELSE waits
  /\ UNCHANGED <<ws, route, q, pilled, pend, busy, stops, phase>>

WaitBegin ==
  /\ waits' = waits \cup Queued
  /\ UNCHANGED <<ws, route, q, pilled, exited, pend, busy, stops, phase>>
WaitEnd ==
  /\ CkStop => exited = ws
  /\ waits \cap Queued = {}
  /\ UNCHANGED vars

DtorBegin ==
  /\ phase = "live" /\ phase' = "dtor"
  /\ UNCHANGED <<ws, route, q, pilled, exited, pend, busy, stops, waits>>
DtorEnd ==
  /\ phase = "dtor" /\ phase' = "dead"
  /\ CkStop => exited = ws
  /\ Queued = {} /\ pend = {} /\ busy = {}
  /\ UNCHANGED <<ws, route, q, pilled, exited, pend, busy, stops, waits>>

\* nothing can move any more: everything handed over has been resumed, except
\* work behind a stop request, which may stay until somebody waits for the stop
Quiet ==
  /\ pend = {} /\ busy = {}
  /\ \A w \in DOMAIN q : \A i \in 1..Len(q[w]) : q[w][i].late
  /\ CkStop => pilled \subseteq exited
  /\ UNCHANGED vars
Done == Queued = {} /\ pend = {} /\ busy = {} /\ UNCHANGED vars

(***************************************************************************)
(* The properties themselves, checked exhaustively on small instances      *)
(* (MCPool) and evaluated on every state of every validated trace.         *)
(***************************************************************************)
NoDuplicate ==
  /\ \A w1, w2 \in ws : \A i \in 1..Len(q[w1]), j \in 1..Len(q[w2]) :
       q[w1][i].k = q[w2][j].k => w1 = w2 /\ i = j
  /\ Queued \cap Pending = {} /\ Queued \cap Running = {} /\ Pending \cap Running = {}
OneAtATime == CkFifo => \A b1, b2 \in busy : b1.w # Limbo /\ b1.w = b2.w => b1 = b2
LateBehindPill ==
  \A w \in ws : \A i, j \in 1..Len(q[w]) : i < j /\ q[w][i].late => q[w][j].late
SameWorker ==
  \A w \in ws : \A i \in 1..Len(q[w]) : route[q[w][i].key] = w
ExitOnlyAfterPill == CkStop => exited \subseteq pilled
PoolInv == NoDuplicate /\ OneAtATime /\ LateBehindPill /\ SameWorker /\ ExitOnlyAfterPill
=============================================================================
