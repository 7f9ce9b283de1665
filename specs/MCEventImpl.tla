------------------------------ MODULE MCEventImpl ------------------------------
(***************************************************************************)
(* The algorithms of dd::event, when_all(events) and when_any(events), one *)
(* memory access per step, refine Event.  An event is a stack of           *)
(* subscriptions which a notification takes with one exchange; when_all    *)
(* stores a value and counts, the last one resumes; when_any counts first, *)
(* and only the first one touches the awaiter, which dies when the waiter  *)
(* is resumed - perhaps while it still subscribes.  Calls run their        *)
(* deliveries themselves (InlOf) or hand them to an executor's thread.     *)
(***************************************************************************)
EXTENDS Event
CONSTANTS Waiters, Calls, EvOf(_), KindOf(_), InlOf(_), NoteOf(_)
VARIABLES spc,      \* waiter -> position it subscribes next, 0: has not begun, 99: its subscribing call returned
          stack,    \* event -> subscriptions
          npc,      \* call -> "new", "xchg", "walk", "over"
          popped,   \* call -> what it took and has not handed on
          box,      \* handed to the executor
          dl,       \* thread (a call, or 0 the executor) -> delivery in progress or None
          cnt, inp, alive,  \* of the awaiters
          touched
ivars == <<spc, stack, npc, popped, box, dl, cnt, inp, alive, touched>>
vars == <<evars, ivars>>
None == [s |-> 0, i |-> 0, v |-> 0, pc |-> "none"]
Events == UNION {{EvOf(s)[i] : i \in DOMAIN EvOf(s)} : s \in Waiters} \cup {NoteOf(c) : c \in Calls}
May(a) == Assert(ENABLED a, "not allowed") /\ a
Touch(s) == touched' = (touched \/ s \notin alive)
Place(c) == IF InlOf(c) THEN c ELSE 0
Init == /\ EInit /\ spc = [s \in Waiters |-> 0] /\ stack = [e \in Events |-> {}] /\ npc = [c \in Calls |-> "new"]
        /\ popped = [c \in Calls |-> {}] /\ box = {} /\ dl = [t \in Calls \cup {0} |-> None]
        /\ cnt = [s \in Waiters |-> 0] /\ inp = [s \in Waiters |-> << >>] /\ alive = {} /\ touched = FALSE

\* a coroutine begins to wait
Begin(s) == /\ spc[s] = 0 /\ May(SubBegin(s, KindOf(s), EvOf(s))) /\ spc' = [spc EXCEPT ![s] = 1] /\ alive' = alive \cup {s}
            /\ UNCHANGED <<stack, npc, popped, box, dl, cnt, inp, touched>>
\* one push.  when_any has copied its events: it may be dead by now
Sub(s) == /\ spc[s] \in 1..Len(EvOf(s))
          /\ LET i == spc[s]
                 e == EvOf(s)[i] IN
             /\ (IF KindOf(s) = "any" THEN UNCHANGED touched ELSE Touch(s))
             /\ May(SubEffect([s |-> s, i |-> i, e |-> e]))
             /\ stack' = [stack EXCEPT ![e] = @ \cup {<<s, i>>}]
          /\ spc' = [spc EXCEPT ![s] = @ + 1]
          /\ UNCHANGED <<npc, popped, box, dl, cnt, inp, alive>>
Subbed(s) == /\ spc[s] = Len(EvOf(s)) + 1 /\ May(SubEnd(s)) /\ spc' = [spc EXCEPT ![s] = 99]
             /\ UNCHANGED <<stack, npc, popped, box, dl, cnt, inp, alive, touched>>
\* notify_all: c's value is c
Note(c) == /\ npc[c] = "new" /\ May(NotifyBegin(c, NoteOf(c), c, InlOf(c), Place(c))) /\ npc' = [npc EXCEPT ![c] = "xchg"]
           /\ UNCHANGED <<spc, stack, popped, box, dl, cnt, inp, alive, touched>>
Xchg(c) == /\ npc[c] = "xchg" /\ popped' = [popped EXCEPT ![c] = stack[NoteOf(c)]] /\ stack' = [stack EXCEPT ![NoteOf(c)] = {}]
           /\ npc' = [npc EXCEPT ![c] = IF stack[NoteOf(c)] = {} THEN "empty" ELSE "walk"] /\ May(Take(c))
           /\ UNCHANGED <<spc, box, dl, cnt, inp, alive, touched>>
D(x, c) == [s |-> x[1], i |-> x[2], v |-> c, pc |-> "begin"]
\* the next one is resumed here, or handed on
Walk(c) == /\ npc[c] = "walk" /\ dl[c] = None
           /\ \E x \in popped[c] :
                /\ popped' = [popped EXCEPT ![c] = @ \ {x}]
                /\ IF InlOf(c) THEN dl' = [dl EXCEPT ![c] = D(x, c)] /\ UNCHANGED box ELSE box' = box \cup {D(x, c)} /\ UNCHANGED dl
           /\ UNCHANGED <<evars, spc, stack, npc, cnt, inp, alive, touched>>
NoteOver(c) == /\ npc[c] = "empty" \/ (npc[c] = "walk" /\ dl[c] = None /\ popped[c] = {})
               /\ May(NotifyEnd(c, npc[c] = "walk")) /\ npc' = [npc EXCEPT ![c] = "over"]
               /\ UNCHANGED <<spc, stack, popped, box, dl, cnt, inp, alive, touched>>
Pick == /\ dl[0] = None /\ \E x \in box : box' = box \ {x} /\ dl' = [dl EXCEPT ![0] = x]
        /\ UNCHANGED <<evars, spc, stack, npc, popped, cnt, inp, alive, touched>>
\* a delivery on thread t
Goto(t, l) == dl' = [dl EXCEPT ![t].pc = l]
Gone(t) == dl' = [dl EXCEPT ![t] = None]
Same == UNCHANGED <<spc, stack, npc, popped, box>>
One(t) == LET d == dl[t] IN
  /\ d.pc = "begin" /\ KindOf(d.s) = "one" /\ May(RunOne(d.s, d.v, {t})) /\ Touch(d.s) /\ alive' = alive \ {d.s} /\ Gone(t)
  /\ UNCHANGED <<cnt, inp>> /\ Same
AllPut(t) == LET d == dl[t] IN
  /\ d.pc = "begin" /\ KindOf(d.s) = "all" /\ inp' = [inp EXCEPT ![d.s] = Put(@, d.i, d.v)] /\ Touch(d.s) /\ Goto(t, "count")
  /\ UNCHANGED <<evars, cnt, alive>> /\ Same
AllCount(t) == LET d == dl[t] IN
  /\ d.pc = "count" /\ KindOf(d.s) = "all" /\ cnt' = [cnt EXCEPT ![d.s] = @ + 1] /\ Touch(d.s)
  /\ (IF cnt[d.s] = Len(EvOf(d.s)) - 1 THEN Goto(t, "resume") ELSE Gone(t))
  /\ UNCHANGED <<evars, inp, alive>> /\ Same
AllRun(t) == LET d == dl[t] IN
  /\ d.pc = "resume" /\ KindOf(d.s) = "all" /\ May(RunAll(d.s, [i \in 1..Len(EvOf(d.s)) |-> inp[d.s][i]], {t})) /\ Touch(d.s)
  /\ alive' = alive \ {d.s} /\ Gone(t) /\ UNCHANGED <<cnt, inp>> /\ Same
\* the counter of a when_any is shared by its callbacks and lives as long as they do
AnyCount(t) == LET d == dl[t] IN
  /\ d.pc = "begin" /\ KindOf(d.s) = "any" /\ cnt' = [cnt EXCEPT ![d.s] = @ + 1]
  /\ (IF cnt[d.s] = 0 THEN Goto(t, "put") ELSE Gone(t))
  /\ UNCHANGED <<evars, inp, alive, touched>> /\ Same
AnyPut(t) == LET d == dl[t] IN
  /\ d.pc = "put" /\ inp' = [inp EXCEPT ![d.s] = (0 :> <<d.i, d.v>>)] /\ Touch(d.s) /\ Goto(t, "resume")
  /\ UNCHANGED <<evars, cnt, alive>> /\ Same
AnyRun(t) == LET d == dl[t] IN
  /\ d.pc = "resume" /\ KindOf(d.s) = "any" /\ May(RunAny(d.s, inp[d.s][0][1], inp[d.s][0][2], {t})) /\ Touch(d.s)
  /\ alive' = alive \ {d.s} /\ Gone(t) /\ UNCHANGED <<cnt, inp>> /\ Same
Deliver(t) == One(t) \/ AllPut(t) \/ AllCount(t) \/ AllRun(t) \/ AnyCount(t) \/ AnyPut(t) \/ AnyRun(t)
Threads == Calls \cup {0}
System == \/ \E s \in Waiters : Sub(s) \/ Subbed(s)
          \/ \E c \in Calls : Xchg(c) \/ Walk(c) \/ NoteOver(c)
          \/ Pick \/ \E t \in Threads : Deliver(t)
Over == /\ \A s \in Waiters : spc[s] = 99
        /\ \A c \in Calls : npc[c] = "over"
        /\ box = {} /\ dl[0] = None /\ UNCHANGED vars
Next == System \/ Over \/ (\E s \in Waiters : Begin(s)) \/ (\E c \in Calls : Note(c))
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
NoUseAfterFree == ~touched
\* when nothing moves nothing is owed
Still == ~ENABLED System
QuietAtRest == Still => ENABLED Quiet
\* who waits when all is over waits for something: a position of it was not notified
Waits == \A s \in Waiters : Still /\ s \in alive => \E i \in DOMAIN EvOf(s) : <<s, i>> \in stack[EvOf(s)[i]]
AnyWaits == \A s \in Waiters : Still /\ s \in alive /\ KindOf(s) # "all" => \A i \in DOMAIN EvOf(s) : <<s, i>> \in stack[EvOf(s)[i]]
\* every step is taken at most once, so that without a deadlock every call returns
=============================================================================
