-------------------------------- MODULE MCTask --------------------------------
(* The protocols of when_all (a count of unfinished children, the last one   *)
(* continues the owner) and when_any (a result under a lock, an owner handle *)
(* that is taken once, weak references to the state) refine Task.  The main  *)
(* thread M starts the children one by one; each child either ends within    *)
(* its start or later on a thread of its own.  A when_any which nobody waits  *)
(* for (keep) may be destroyed while none of its children is telling it.     *)
EXTENDS Task
CONSTANT N
VARIABLES all, async, fails, keep, pre,   \* the program
          mpc,                 \* the child M is starting; N + 1 when it has started all
          pc,                  \* child -> where it is
          cnt, res, owner, alive, wpc, told, touched
mvars == <<all, async, fails, keep, pre, mpc, pc, cnt, res, owner, alive, wpc, told, touched>>
vars == <<kvars, mvars>>
W == 1000
G == 500
C == 1..N
Ks == [i \in C |-> i]
\* what the library does must be allowed
May(a) == Assert(ENABLED a, "not allowed") /\ a
Init == /\ KInit /\ all \in BOOLEAN /\ async \in SUBSET C /\ fails \in SUBSET C /\ keep \in (IF all THEN {"no"} ELSE {"no", "keep"}) /\ pre \in SUBSET (C \ async)
        /\ mpc = 0 /\ pc = [i \in C |-> "new"] /\ cnt = N /\ res = << >> /\ owner = FALSE /\ alive = FALSE
        /\ wpc = "make" /\ told = {} /\ touched = FALSE
Kind(i) == IF i \in fails THEN "exc" ELSE "val"
CMake(i) == /\ wpc = "make" /\ UNCHANGED mvars
            /\ IF i \notin pre THEN Make(i)
               ELSE /\ ~Dom(st, i) /\ st' = Put(st, i, "ended") /\ why' = Put(why, i, "await") /\ by' = Put(by, i, 0)
                    /\ hk' = Put(hk, i, [o |-> 1, s |-> 1, e |-> 1]) /\ out' = Put(out, i, [kind |-> Kind(i), v |-> i])
                    /\ UNCHANGED <<waits, grp, freed, dropping, settled, imm>>
Begin == wpc = "make" /\ (\A i \in C : Dom(st, i)) /\ GroupBegin(W, G, Ks, all, keep = "keep") /\ wpc' = (IF keep = "keep" THEN "g2" ELSE "g1")
         /\ UNCHANGED <<all, async, fails, keep, pre, mpc, pc, cnt, res, owner, alive, told, touched>>
G1 == wpc = "g1" /\ May(OwnerHook(G, W)) /\ wpc' = "g2" /\ UNCHANGED <<all, async, fails, keep, pre, mpc, pc, cnt, res, owner, alive, told, touched>>
G2 == wpc = "g2" /\ May(StartHook(G)) /\ wpc' = "waits" /\ owner' = TRUE /\ alive' = TRUE /\ mpc' = 1
      /\ UNCHANGED <<all, async, fails, keep, pre, pc, cnt, res, told, touched>>
\* M in child i
SetPc(i, v) == pc' = [pc EXCEPT ![i] = v]
Rest == UNCHANGED <<all, async, fails, keep, pre, mpc, cnt, res, owner, alive, wpc, told>>
S1(i) == /\ mpc = i /\ pc[i] = "new"
         /\ IF ~(all \/ alive) THEN UNCHANGED kvars /\ SetPc(i, "drop")
            ELSE IF i \in pre THEN UNCHANGED kvars /\ SetPc(i, "tell")
            ELSE May(OwnerHook(i, G)) /\ SetPc(i, "s2")
         /\ touched' = (touched \/ (all /\ ~alive))
         /\ Rest
S2(i) == pc[i] = "s2" /\ May(StartHook(i)) /\ SetPc(i, "s3") /\ UNCHANGED touched /\ Rest
S3(i) == pc[i] = "s3" /\ May(BodyBegin(i, TRUE)) /\ SetPc(i, "run") /\ UNCHANGED touched /\ Rest
R1(i) == pc[i] = "run" /\ May(BodyEnd(i, Kind(i), i, told)) /\ SetPc(i, "r2") /\ UNCHANGED touched /\ Rest
R2(i) == pc[i] = "r2" /\ May(EndHook(i)) /\ SetPc(i, "tell") /\ UNCHANGED touched /\ Rest
Put1(i) == res' = Put(res, i, <<Kind(i), i>>)
TellAll(i) == /\ pc[i] = "tell" /\ all /\ touched' = (touched \/ ~alive)
              /\ Put1(i) /\ SetPc(i, "count") /\ UNCHANGED <<kvars, all, async, fails, keep, pre, mpc, cnt, owner, alive, wpc, told>>
CountAll(i) == /\ pc[i] = "count" /\ touched' = (touched \/ ~alive) /\ cnt' = cnt - 1 /\ told' = told \cup {i}
               /\ SetPc(i, IF cnt = 1 THEN "resume" ELSE "over")
               /\ UNCHANGED <<kvars, all, async, fails, keep, pre, mpc, res, owner, alive, wpc>>
\* under the lock
TellAny(i) ==
  /\ pc[i] = "tell" /\ ~all /\ told' = told \cup {i}
  /\ IF ~alive \/ ~owner THEN SetPc(i, "drop") /\ UNCHANGED <<res, cnt, owner>>
     ELSE /\ res' = Put(<< >>, 0, <<Kind(i), i>>)
          /\ IF i \in fails THEN cnt' = cnt - 1 /\ UNCHANGED owner /\ SetPc(i, IF cnt = 1 THEN "resume" ELSE "drop")
             ELSE owner' = FALSE /\ UNCHANGED cnt /\ SetPc(i, "resume")
  /\ UNCHANGED <<kvars, all, async, fails, keep, pre, mpc, alive, wpc, touched>>
Resume(i) == pc[i] = "resume" /\ wpc = "waits" /\ May(EndHook(G)) /\ wpc' = "go" /\ SetPc(i, "gone")
             /\ UNCHANGED <<all, async, fails, keep, pre, mpc, cnt, res, owner, alive, told, touched>>
Go == /\ wpc = "go" /\ wpc' = "free"
      /\ IF all THEN May(AllEnd(W, G, [i \in C |-> IF res[i][1] = "val" THEN 1 ELSE 0], [i \in C |-> res[i][2]], TRUE))
         ELSE IF res[0][1] = "val" THEN May(AnyEnd(W, G, res[0][2], res[0][2], TRUE)) ELSE May(AnyFail(W, G, res[0][2], res[0][2], TRUE))
      /\ UNCHANGED <<all, async, fails, keep, pre, mpc, pc, cnt, res, owner, alive, told, touched>>
Leave == /\ wpc = "waits" /\ keep = "keep" /\ mpc = N + 1 /\ (\A i \in C : pc[i] \in {"run", "drop", "over"})
         /\ AnyDrop(W, G) /\ wpc' = "free" /\ alive' = FALSE /\ keep' = "left"
         /\ UNCHANGED <<all, async, fails, pre, mpc, pc, cnt, res, owner, told, touched>>
\* the group's frame goes; those of a when_all's children with it
FreeG == /\ wpc = "free" /\ alive /\ alive' = FALSE /\ UNCHANGED <<kvars, all, async, fails, keep, pre, mpc, pc, cnt, res, owner, wpc, told, touched>>
FreeC(i) == /\ IF all THEN wpc = "free" /\ ~alive ELSE pc[i] \in {"drop", "gone"}
            /\ i \notin freed /\ May(Free(i, TRUE)) /\ (IF pc[i] = "drop" THEN SetPc(i, "over") ELSE UNCHANGED pc)
            /\ UNCHANGED <<all, async, fails, keep, pre, mpc, cnt, res, owner, alive, wpc, told, touched>>
\* control is back in M: the child is suspended on its own thread, or it is over and whoever it continued is too
Back(i) == /\ mpc = i /\ i <= N
           /\ \/ i \in async /\ pc[i] \notin {"new", "s2", "s3"}
              \/ pc[i] = "over"
              \/ pc[i] = "gone" /\ wpc = "free" /\ (all \/ i \in freed) /\ ~alive
           /\ mpc' = i + 1 /\ UNCHANGED <<kvars, all, async, fails, keep, pre, pc, cnt, res, owner, alive, wpc, told, touched>>
Over == /\ mpc = N + 1 /\ wpc = "free" /\ (\A i \in C : i \in freed /\ pc[i] \in {"over", "gone"}) /\ UNCHANGED vars
ChildStep(i) == CMake(i) \/ S1(i) \/ S2(i) \/ S3(i) \/ R1(i) \/ R2(i) \/ TellAll(i) \/ CountAll(i) \/ TellAny(i) \/ Resume(i) \/ FreeC(i) \/ Back(i)
Next == Begin \/ G1 \/ G2 \/ Go \/ Leave \/ FreeG \/ (\E i \in C : ChildStep(i)) \/ Over
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* every step of the protocol that Task does not allow would leave it without a successor: deadlock
NoUseAfterFree == ~touched
Continues == <>(wpc = "free")
AllOver == <>[](mpc = N + 1 /\ (\A i \in C : i \in freed))
OneResume == Cardinality({i \in C : pc[i] = "resume"}) + (IF wpc \in {"go", "free"} THEN 1 ELSE 0) <= 1
FirstSuccess == wpc = "free" /\ ~all /\ keep # "left" /\ (fails # C) => res[0][1] = "val"
=============================================================================
