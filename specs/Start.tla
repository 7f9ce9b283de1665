--------------------------------- MODULE Start ---------------------------------
(***************************************************************************)
(* Making a pool (or a worker) when threads or memory may be refused: it   *)
(* comes up with all its workers or reports what failed, having stopped    *)
(* and joined those it had started and freed everything.  Scheduling when  *)
(* memory may be refused: the task is accepted and runs once (or dies with *)
(* the pool), or the caller is told and nothing is left of it.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES pools,   \* p -> [st: making/up/dying/gone/failed, n, ths, inj]
          joined,  \* threads joined
          ended,   \* threads ended
          tasks,   \* k -> [p, st: calling/in/refused, ran, gone, inj]
          ctx      \* thread -> what it is in: <<"make", p>>, <<"sched", k>>, <<"destroy", p>>
stvars == <<pools, joined, ended, tasks, ctx>>
StInit == pools = << >> /\ joined = {} /\ ended = {} /\ tasks = << >> /\ ctx = << >>
Put(f, k, v) == (k :> v) @@ f
Less(f, k) == [y \in DOMAIN f \ {k} |-> f[y]]
In(t, c) == IF t \in DOMAIN ctx THEN ctx[t] = c ELSE FALSE
Idle(t) == t \notin DOMAIN ctx

Make(t, p, n) ==
  /\ Idle(t) /\ p \notin DOMAIN pools /\ ctx' = Put(ctx, t, <<"make", p>>)
  /\ pools' = Put(pools, p, [st |-> "making", n |-> n, ths |-> {}, inj |-> ""])
  /\ UNCHANGED <<joined, ended, tasks>>
\* something is refused
Inject(t, what) ==
  /\ t \in DOMAIN ctx
  /\ IF ctx[t][1] = "make" THEN pools' = [pools EXCEPT ![ctx[t][2]].inj = what] /\ UNCHANGED tasks
     ELSE ctx[t][1] = "sched" /\ tasks' = [tasks EXCEPT ![ctx[t][2]].inj = what] /\ UNCHANGED pools
  /\ UNCHANGED <<joined, ended, ctx>>
Created(t, c) ==
  /\ t \in DOMAIN ctx
  /\ IF ctx[t][1] = "make" THEN pools' = [pools EXCEPT ![ctx[t][2]].ths = @ \cup {c}] ELSE FALSE
  /\ UNCHANGED <<joined, ended, tasks, ctx>>
Ended(c) == ended' = ended \cup {c} /\ UNCHANGED <<pools, joined, tasks, ctx>>
Joined(c) == c \notin joined /\ c \in ended /\ joined' = joined \cup {c} /\ UNCHANGED <<pools, ended, tasks, ctx>>
Made(t, p) ==
  /\ In(t, <<"make", p>>) /\ pools[p].inj = "" /\ Cardinality(pools[p].ths) = (IF pools[p].n < 1 THEN 1 ELSE pools[p].n)
  /\ pools' = [pools EXCEPT ![p].st = "up"] /\ ctx' = Less(ctx, t) /\ UNCHANGED <<joined, ended, tasks>>
\* left: memory obtained and not freed
Failed(t, p, what, left) ==
  /\ In(t, <<"make", p>>) /\ what # "" /\ pools[p].inj = what /\ left = 0 /\ pools[p].ths \subseteq joined
  /\ pools' = [pools EXCEPT ![p].st = "failed"] /\ ctx' = Less(ctx, t) /\ UNCHANGED <<joined, ended, tasks>>

Sched(t, k, p) ==
  /\ Idle(t) /\ pools[p].st = "up" /\ k \notin DOMAIN tasks
  /\ tasks' = Put(tasks, k, [p |-> p, st |-> "calling", ran |-> FALSE, gone |-> FALSE, inj |-> ""])
  /\ ctx' = Put(ctx, t, <<"sched", k>>) /\ UNCHANGED <<pools, joined, ended>>
AcceptedTask(t, k) ==
  /\ In(t, <<"sched", k>>) /\ tasks[k].inj = "" /\ tasks' = [tasks EXCEPT ![k].st = "in"] /\ ctx' = Less(ctx, t)
  /\ UNCHANGED <<pools, joined, ended>>
RefusedTask(t, k, what) ==
  /\ In(t, <<"sched", k>>) /\ tasks[k].inj = what /\ what # "" /\ ~tasks[k].ran /\ tasks[k].gone
  /\ tasks' = [tasks EXCEPT ![k].st = "refused"] /\ ctx' = Less(ctx, t)
  /\ UNCHANGED <<pools, joined, ended>>
Ran(t, k) ==
  /\ tasks[k].inj = "" /\ ~tasks[k].ran /\ ~tasks[k].gone /\ t \in pools[tasks[k].p].ths /\ t \notin ended
  /\ tasks' = [tasks EXCEPT ![k].ran = TRUE] /\ UNCHANGED <<pools, joined, ended, ctx>>
\* asked by a task: it is on one of the pool's threads
IsWorker(t, k, ret) == t \in pools[tasks[k].p].ths /\ ret /\ UNCHANGED stvars
\* asked by a thread which is none of the pool's: as many workers and queues as asked for, and at least one;
\* every worker is told to be one, nobody else is
Shape(t, p, ws, qs, all, me) ==
  /\ pools[p].st = "up" /\ t \notin pools[p].ths /\ ~me /\ all
  /\ ws = (IF pools[p].n < 1 THEN 1 ELSE pools[p].n) /\ qs = ws /\ UNCHANGED stvars
\* what was to be run is destroyed: after it ran, when it was refused, or with the pool
Gone(k) ==
  /\ ~tasks[k].gone /\ (tasks[k].ran \/ tasks[k].inj # "" \/ pools[tasks[k].p].st = "dying")
  /\ tasks' = [tasks EXCEPT ![k].gone = TRUE] /\ UNCHANGED <<pools, joined, ended, ctx>>
\* everything accepted so far has run by now
AllRan(p) == (\A k \in DOMAIN tasks : tasks[k].p = p /\ tasks[k].st = "in" => tasks[k].ran /\ tasks[k].gone) /\ UNCHANGED stvars

Destroy(t, p) ==
  /\ Idle(t) /\ pools[p].st = "up" /\ pools' = [pools EXCEPT ![p].st = "dying"] /\ ctx' = Put(ctx, t, <<"destroy", p>>)
  /\ UNCHANGED <<joined, ended, tasks>>
Destroyed(t, p, left) ==
  /\ In(t, <<"destroy", p>>) /\ pools[p].ths \subseteq joined /\ left = 0
  /\ \A k \in DOMAIN tasks : tasks[k].p = p => tasks[k].gone
  /\ pools' = [pools EXCEPT ![p].st = "gone"] /\ ctx' = Less(ctx, t) /\ UNCHANGED <<joined, ended, tasks>>
Done == (\A p \in DOMAIN pools : pools[p].st \in {"gone", "failed"}) /\ (\A k \in DOMAIN tasks : tasks[k].gone)
=============================================================================
