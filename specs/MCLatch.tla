------------------------------- MODULE MCLatch -------------------------------
(***************************************************************************)
(* The algorithm of dd::latch (a stack of waiters beside the counter), one *)
(* atomic access per step, refines Latch: nobody is released before zero,  *)
(* everybody is released exactly once.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Waiters,    \* coroutines that call wait()
          Arrivers,   \* coroutines that call arrive_and_wait(1)
          Downers     \* count_down(1)
VARIABLES pc, cnt, stack, popped, ran

vars == <<pc, cnt, stack, popped, ran>>
Procs == Waiters \cup Arrivers \cup Downers
Init == /\ pc = [p \in Procs |-> "start"] /\ cnt = Cardinality(Arrivers) + Cardinality(Downers)
        /\ stack = {} /\ popped = [p \in Procs |-> {}] /\ ran = [p \in Procs |-> 0]
Goto(p, l) == pc' = [pc EXCEPT ![p] = l]
RunIt(p) == ran' = [ran EXCEPT ![p] = @ + 1]

\* wait()
Ready(p) == /\ p \in Waiters /\ pc[p] = "start"
            /\ IF cnt = 0 THEN Goto(p, "done") /\ RunIt(p) ELSE Goto(p, "push") /\ UNCHANGED ran
            /\ UNCHANGED <<cnt, stack, popped>>
Push(p) == /\ p \in Waiters /\ pc[p] = "push" /\ stack' = stack \cup {p} /\ Goto(p, "recheck")
           /\ UNCHANGED <<cnt, popped, ran>>
Recheck(p) == /\ p \in Waiters /\ pc[p] = "recheck" /\ Goto(p, IF cnt = 0 THEN "pop" ELSE "done")
              /\ UNCHANGED <<cnt, stack, popped, ran>>
\* arrive_and_wait()
APush(p) == /\ p \in Arrivers /\ pc[p] = "start" /\ stack' = stack \cup {p} /\ Goto(p, "sub")
            /\ UNCHANGED <<cnt, popped, ran>>
\* count_down()
Sub(p) == /\ \/ p \in Downers /\ pc[p] = "start"
             \/ p \in Arrivers /\ pc[p] = "sub"
          /\ cnt' = cnt - 1 /\ Goto(p, IF cnt = 1 THEN "pop" ELSE "done")
          /\ UNCHANGED <<stack, popped, ran>>
Pop(p) == /\ pc[p] = "pop" /\ popped' = [popped EXCEPT ![p] = stack] /\ stack' = {} /\ Goto(p, "attach")
          /\ UNCHANGED <<cnt, ran>>
Attach(p) == /\ pc[p] = "attach"
             /\ IF popped[p] = {} THEN Goto(p, "done") /\ UNCHANGED <<popped, ran>>
                ELSE \E w \in popped[p] : popped' = [popped EXCEPT ![p] = @ \ {w}] /\ RunIt(w) /\ UNCHANGED pc
             /\ UNCHANGED <<cnt, stack>>
Finished == (\A p \in Procs : pc[p] = "done") /\ UNCHANGED vars
Next == Finished \/ \E p \in Procs : Ready(p) \/ Push(p) \/ Recheck(p) \/ APush(p) \/ Sub(p) \/ Pop(p) \/ Attach(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NoEarly == \A p \in Procs : ran[p] > 0 => cnt = 0
Once == \A p \in Procs : ran[p] <= 1
AllReleased == (\A p \in Procs : pc[p] = "done") => \A p \in Waiters \cup Arrivers : ran[p] = 1
Terminates == <>(\A p \in Procs : pc[p] = "done")

\* as seen by a user
InLatch(p) == p \in Waiters \cup Arrivers /\ ran[p] = 0 /\ pc[p] # "start"
Abs == INSTANCE Latch WITH left <- cnt,
          dec <- {[c |-> p, n |-> 1] : p \in {x \in Arrivers : pc[x] = "sub"}},
          begun <- {[w |-> p, must |-> FALSE] : p \in {x \in Procs : InLatch(x)}},
          rcalls <- << >>
AbsStep ==
  \/ UNCHANGED Abs!lvars
  \/ \E p \in Procs : Abs!Run(p, FALSE, TRUE)
  \/ \E p \in Procs : Abs!WaitBegin(p, FALSE) \/ Abs!Down([c |-> p, n |-> 1])
  \* begin and effect of a count-down in one step
  \/ \E p \in Downers : cnt' = cnt - 1 /\ UNCHANGED <<stack, popped, ran>>
  \/ \E p \in Arrivers : pc[p] = "start" /\ pc'[p] = "sub" /\ UNCHANGED <<cnt, ran>>
  \* a wait at zero that does not suspend
  \/ \E p \in Waiters : pc[p] = "start" /\ cnt = 0 /\ pc'[p] = "done"
Refines == [][AbsStep]_vars
=============================================================================
