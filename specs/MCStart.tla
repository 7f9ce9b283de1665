-------------------------------- MODULE MCStart --------------------------------
(***************************************************************************)
(* The constructor, scheduling and the destructor of the pool, step by     *)
(* step, with the workers; anything may be refused.  Whatever happens      *)
(* Start allows it, and nobody waits for ever (deadlock).                  *)
(***************************************************************************)
EXTENDS Start
CONSTANTS MaxN, MaxK, Guard       \* Guard = FALSE: the constructor does not stop what it started
VARIABLES n, pc, i, mem,          \* the constructing thread 0; storage held
          q,                      \* worker -> its queue: tasks, 0 is the pill
          wpc,                    \* worker -> "no", "run", "end"
          batch, cur,             \* worker -> tasks taken; task being run
          nk, refused
vars == <<stvars, n, pc, i, mem, q, wpc, batch, cur, nk, refused>>
W == 1..MaxN
May(a) == IF ENABLED a THEN a /\ refused' = FALSE ELSE refused' = TRUE /\ UNCHANGED stvars
Init == /\ StInit /\ n \in 1..MaxN /\ pc = "new" /\ i = 0 /\ mem = 0 /\ q = [w \in W |-> << >>] /\ wpc = [w \in W |-> "no"]
        /\ batch = [w \in W |-> << >>] /\ cur = [w \in W |-> 0] /\ nk = 0 /\ refused = FALSE
Go(l) == pc' = l
ws == <<q, wpc, batch, cur>>

New == pc = "new" /\ Go("queues") /\ May(Make(0, 1, n)) /\ UNCHANGED <<n, i, mem, ws, nk>>
Queues == pc = "queues" /\ UNCHANGED <<n, i, ws, nk>> /\
          \/ mem' = 1 /\ Go("threads") /\ UNCHANGED <<stvars, refused>>
          \/ mem' = 0 /\ Go("throwA") /\ May(Inject(0, "alloc"))
Threads == pc = "threads" /\ UNCHANGED <<n, ws, nk>> /\
          \/ mem' = 2 /\ i' = 1 /\ Go("start") /\ UNCHANGED <<stvars, refused>>
          \/ mem' = 0 /\ Go("throwA") /\ UNCHANGED i /\ May(Inject(0, "alloc"))
StartOne == pc = "start" /\ UNCHANGED <<n, mem, q, batch, cur, nk>> /\
          IF i > n THEN Go("up") /\ UNCHANGED <<i, wpc>> /\ May(Made(0, 1))
          ELSE \/ wpc' = [wpc EXCEPT ![i] = "run"] /\ i' = i + 1 /\ UNCHANGED pc /\ May(Created(0, i))
               \/ Go("guard") /\ i' = 1 /\ UNCHANGED wpc /\ May(Inject(0, "thread"))
\* the guard: a pill to and a join of every worker started
GuardPush == pc = "guard" /\ UNCHANGED <<n, wpc, batch, cur, nk, stvars, refused>> /\
          IF i > n \/ ~Guard THEN Go("throwT") /\ mem' = 0 /\ UNCHANGED <<i, q>>
          ELSE IF wpc[i] = "no" THEN Go("throwT") /\ mem' = 0 /\ UNCHANGED <<i, q>>
          ELSE q' = [q EXCEPT ![i] = Append(@, 0)] /\ Go("guardJoin") /\ UNCHANGED <<i, mem>>
GuardJoin == pc = "guardJoin" /\ wpc[i] = "end" /\ i' = i + 1 /\ Go("guard") /\ May(Joined(i)) /\ UNCHANGED <<n, mem, ws, nk>>
Throw == pc \in {"throwA", "throwT"} /\ Go("over") /\ UNCHANGED <<n, i, mem, ws, nk>>
         /\ May(Failed(0, 1, IF pc = "throwA" THEN "alloc" ELSE "thread", mem))
\* scheduling from thread 0
DoSched == pc = "up" /\ nk < MaxK /\ nk' = nk + 1 /\ Go("sched") /\ May(Sched(0, nk + 1, 1)) /\ UNCHANGED <<n, i, mem, ws>>
DoAlloc == pc = "sched" /\ UNCHANGED <<n, i, ws, nk>> /\
          \/ mem' = mem + 1 /\ Go("push") /\ UNCHANGED <<stvars, refused>>
          \/ mem' = mem /\ Go("drop") /\ May(Inject(0, "alloc"))
DoDrop == pc = "drop" /\ Go("told") /\ May(Gone(nk)) /\ UNCHANGED <<n, i, mem, ws, nk>>
Told == pc = "told" /\ Go("up") /\ May(RefusedTask(0, nk, "alloc")) /\ UNCHANGED <<n, i, mem, ws, nk>>
DoPush == pc = "push" /\ Go("pushed") /\ (\E w \in 1..n : q' = [q EXCEPT ![w] = Append(@, nk)])
          /\ UNCHANGED <<stvars, refused, n, i, mem, wpc, batch, cur, nk>>
Pushed == pc = "pushed" /\ Go("up") /\ May(AcceptedTask(0, nk)) /\ UNCHANGED <<n, i, mem, ws, nk>>
\* the destructor
DoDestroy == pc = "up" /\ Go("kill") /\ i' = 1 /\ May(Destroy(0, 1)) /\ UNCHANGED <<n, mem, ws, nk>>
Kill == pc = "kill" /\ UNCHANGED <<n, mem, wpc, batch, cur, nk, stvars, refused>> /\
        IF i > n THEN Go("cancel") /\ i' = 1 /\ UNCHANGED q
        ELSE q' = [q EXCEPT ![i] = Append(@, 0)] /\ Go("killJoin") /\ UNCHANGED i
KillJoin == pc = "killJoin" /\ wpc[i] = "end" /\ i' = i + 1 /\ Go("kill") /\ May(Joined(i)) /\ UNCHANGED <<n, mem, ws, nk>>
Cancel == pc = "cancel" /\ UNCHANGED <<n, wpc, batch, cur, nk>> /\
        IF i > n THEN Go("over") /\ mem' = mem - 2 /\ UNCHANGED <<i, q>> /\ May(Destroyed(0, 1, mem - 2))
        ELSE IF q[i] = << >> THEN i' = i + 1 /\ UNCHANGED <<pc, mem, q, stvars, refused>>
        ELSE /\ q' = [q EXCEPT ![i] = Tail(@)] /\ UNCHANGED <<pc, i>>
             /\ IF Head(q[i]) = 0 THEN UNCHANGED <<mem, stvars, refused>> ELSE mem' = mem - 1 /\ May(Gone(Head(q[i])))
\* worker w
Take(w) == wpc[w] = "run" /\ cur[w] = 0 /\ UNCHANGED <<n, pc, i, nk, stvars, refused>> /\
        IF batch[w] = << >> THEN q[w] # << >> /\ batch' = [batch EXCEPT ![w] = q[w]] /\ q' = [q EXCEPT ![w] = << >>]
                                /\ UNCHANGED <<wpc, cur, mem>>
        ELSE IF Head(batch[w]) = 0 THEN wpc' = [wpc EXCEPT ![w] = "cancel"] /\ batch' = [batch EXCEPT ![w] = Tail(@)]
                                /\ UNCHANGED <<q, cur, mem>>
        ELSE cur' = [cur EXCEPT ![w] = Head(batch[w])] /\ batch' = [batch EXCEPT ![w] = Tail(@)] /\ UNCHANGED <<q, wpc, mem>>
RunIt(w) == cur[w] > 0 /\ cur' = [cur EXCEPT ![w] = -cur[w]] /\ May(Ran(w, cur[w])) /\ UNCHANGED <<n, pc, i, mem, q, wpc, batch, nk>>
FreeIt(w) == cur[w] < 0 /\ cur' = [cur EXCEPT ![w] = 0] /\ mem' = mem - 1 /\ May(Gone(-cur[w]))
             /\ UNCHANGED <<n, pc, i, q, wpc, batch, nk>>
Rest(w) == wpc[w] = "cancel" /\ UNCHANGED <<n, pc, i, q, cur, nk>> /\
        IF batch[w] = << >> THEN wpc' = [wpc EXCEPT ![w] = "end"] /\ May(Ended(w)) /\ UNCHANGED <<batch, mem>>
        ELSE /\ batch' = [batch EXCEPT ![w] = Tail(@)] /\ UNCHANGED wpc
             /\ IF Head(batch[w]) = 0 THEN UNCHANGED <<mem, stvars, refused>> ELSE mem' = mem - 1 /\ May(Gone(Head(batch[w])))
Over == pc = "over" /\ UNCHANGED vars
Next == ~refused /\ (New \/ Queues \/ Threads \/ StartOne \/ GuardPush \/ GuardJoin \/ Throw \/ DoSched \/ DoAlloc \/ DoDrop
        \/ Told \/ DoPush \/ Pushed \/ DoDestroy \/ Kill \/ KillJoin \/ Cancel \/ Over
        \/ \E w \in W : Take(w) \/ RunIt(w) \/ FreeIt(w) \/ Rest(w))
Spec == Init /\ [][Next]_vars
Allowed == ~refused
AtEnd == pc = "over" => mem = 0 /\ \A w \in W : wpc[w] # "run"
=============================================================================
