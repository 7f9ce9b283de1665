-------------------------------- MODULE MCExec --------------------------------
(***************************************************************************)
(* attach_list and reverse_list, memory access by memory access, while a   *)
(* node may be resumed, and die, as soon as it is handed on: thread 1      *)
(* attaches, thread 2 resumes what lies in the box.  Exec allows all of    *)
(* it, no dead node is read, and the list is handed on in order.           *)
(***************************************************************************)
EXTENDS Exec
CONSTANTS Nn, Kinds, ReadLate    \* ReadLate: the wrong algorithm, which reads next after attach
Nodes == 1..Nn
VARIABLES nx, alive, pc, top, reg, prev, list, rev, x, given, tp, touched, refused
vars == <<evars, nx, alive, pc, top, reg, prev, list, rev, x, given, tp, touched, refused>>
Garbage == 77
Seqs == UNION {{s \in [1..n -> Nodes] : \A i, j \in 1..n : i # j => s[i] # s[j]} : n \in 0..Nn}
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Init ==
  /\ list \in Seqs /\ x \in Kinds /\ rev \in BOOLEAN
  /\ nx = [n \in Nodes |-> IF n \notin ToSet(list) THEN Garbage
                           ELSE IF Idx(list, n) = Len(list) THEN 0 ELSE list[Idx(list, n) + 1]]
  /\ alive = ToSet(list) /\ pc = (IF rev THEN "rev" ELSE "begin") /\ top = (IF list = << >> THEN 0 ELSE list[1])
  /\ reg = 0 /\ prev = 0 /\ given = << >> /\ tp = [pc |-> "idle", c |-> 0] /\ touched = FALSE /\ refused = FALSE
  /\ stk = << >> /\ where = [n \in ToSet(list) |-> "parked"] /\ at = << >> /\ okc = << >> /\ must = << >> /\ fresh = << >>
  /\ role = << >> /\ before = << >>
May(a) == IF ENABLED a THEN a /\ refused' = FALSE ELSE refused' = TRUE /\ UNCHANGED evars
Touch(n) == touched' = (touched \/ n \notin alive)
mem == <<nx, alive, pc, top, reg, prev, given>>

RevStep ==
  /\ pc = "rev" /\ UNCHANGED <<reg, given, alive, tp>>
  /\ IF top = 0 THEN pc' = "begin" /\ top' = prev /\ UNCHANGED <<nx, prev, touched>> /\ May(Reversed(list, Rev(list)))
     ELSE /\ Touch(top) /\ nx' = [nx EXCEPT ![top] = prev] /\ prev' = top /\ top' = nx[top]
          /\ UNCHANGED <<pc, evars, refused>>
Order == IF rev THEN Rev(list) ELSE list
Begin == pc = "begin" /\ pc' = (IF ReadLate THEN "attach" ELSE "read") /\ May(ListBegin(1, x, Order, [i \in 1..Len(Order) |-> 1]))
         /\ UNCHANGED <<nx, alive, top, reg, prev, given, tp, touched>>
End == May(ListEnd(1)) /\ pc' = "done" /\ UNCHANGED <<nx, alive, top, reg, prev, given, tp, touched>>
Read == /\ pc = "read" /\ IF top = 0 /\ ~ReadLate THEN End
          ELSE /\ Touch(IF ReadLate THEN reg ELSE top)
               /\ IF ReadLate THEN top' = nx[reg] /\ reg' = 0 ELSE reg' = nx[top] /\ top' = top
               /\ pc' = "attach" /\ UNCHANGED <<nx, alive, prev, given, tp, evars, refused>>
Attach ==
  /\ pc = "attach"
  /\ IF top = 0 THEN ReadLate /\ End
     ELSE /\ given' = Append(given, top) /\ Touch(top)
          /\ IF ReadLate THEN reg' = top /\ top' = 0 ELSE top' = reg /\ reg' = 0
          /\ IF x = Noop THEN pc' = "read" /\ UNCHANGED <<nx, alive, evars, refused, tp>>
             ELSE IF x = This THEN
                  pc' = "fin" /\ May(Run(1, top, 1)) /\ tp' = [tp EXCEPT !.c = top] /\ UNCHANGED <<nx, alive>>
             ELSE pc' = "read" /\ May(HandBox(1, top, x)) /\ UNCHANGED <<nx, alive, tp>>
          /\ UNCHANGED prev
Die(n) == alive' = alive \ {n} /\ nx' = [nx EXCEPT ![n] = Garbage]
FinHere == pc = "fin" /\ May(Fin(1, tp.c)) /\ Die(tp.c) /\ pc' = "read" /\ UNCHANGED <<top, reg, prev, given, tp, touched>>
\* thread 2
Other ==
  /\ x # This /\ UNCHANGED <<pc, top, reg, prev, given, touched>>
  /\ \/ /\ tp.pc = "idle" /\ \E c \in DOMAIN where : where[c] = "given" /\ May(Resume(2, c, 0)) /\ tp' = [pc |-> "run", c |-> c]
        /\ UNCHANGED <<nx, alive>>
     \/ tp.pc = "run" /\ May(Run(2, tp.c, 0)) /\ tp' = [tp EXCEPT !.pc = "fin"] /\ UNCHANGED <<nx, alive>>
     \/ tp.pc = "fin" /\ May(Fin(2, tp.c)) /\ Die(tp.c) /\ tp' = [tp EXCEPT !.pc = "back"]
     \/ tp.pc = "back" /\ May(Back(2, tp.c)) /\ tp' = [tp EXCEPT !.pc = "idle"] /\ UNCHANGED <<nx, alive>>
Next == ~refused /\ UNCHANGED <<list, rev, x>> /\ (RevStep \/ Begin \/ Read \/ Attach \/ FinHere \/ Other)
Spec == Init /\ [][Next]_vars

Untouched == ~touched
Allowed == ~refused
InOrder == /\ \A i \in 1..Len(given) : i <= Len(list) /\ given[i] = Order[i]
           /\ pc = "done" => given = Order
=============================================================================
