------------------------------ MODULE PoolTrace ------------------------------
(* Executions of real pools, workers and strands against Pool.tla *)
EXTENDS Pool, TraceBatch

VARIABLE fut  \* pending hand-over of k -> its run in the rest of the trace: [at, st, w]
tvars == <<vars, fut, tid, pos>>

Wk(c) == {c.w1} \cup (IF c.nw >= 2 THEN {c.w2} ELSE {}) \cup (IF c.nw >= 3 THEN {c.w3} ELSE {})
         \cup (IF c.nw >= 4 THEN {c.w4} ELSE {}) \cup (IF c.nw >= 5 THEN {c.w5} ELSE {})
         \cup (IF c.nw >= 6 THEN {c.w6} ELSE {})
TInit == BatchInit /\ PoolInit(Wk(T.cfg)) /\ fut = << >>

\* Unlogged: the moment at which a hand-over or a pill takes effect.  These
\* steps commute with everything but the events named in Need, and the rest
\* of the trace tells their order (the order of the runs), the worker (the
\* thread that ran it) and the side of the pill (its status): anything else
\* would be refused later.
Future(k, key) ==
  LET js == {n \in pos..Len_ : T.ev[n].e = "run" /\ T.ev[n].k = k}
      j == CHOOSE n \in js : \A i \in js : n <= i
      ks == {n \in pos..Len_ : T.ev[n].e = "run" /\ T.ev[n].key = key /\ T.ev[n].t \in ws}
      w == IF ks = {} THEN Limbo ELSE T.ev[CHOOSE n \in ks : \A i \in ks : n <= i].t
  IN IF js = {} THEN [at |-> Len_ + 1, st |-> "never", w |-> w]
     ELSE [at |-> j, st |-> T.ev[j].st, w |-> w]
RunAt(p) == fut[p.k].at
Fate(p) == fut[p.k].st
Targets(p) == IF p.key \in DOMAIN route THEN {route[p.key]}
              ELSE {fut[p.k].w}
First(S) == CHOOSE p \in S : \A o \in S : RunAt(p) <= RunAt(o)
NeedK == \/ Is("handed") /\ PendingNth(E.k, E.n)
         \/ Is("run") /\ E.k \in Pending
Own == {p \in pend : p.t = E.t}
NeedAll == \/ Is("quiet") /\ pend # {}
           \/ Is("tend") /\ Own # {}
NeedPill == \/ Is("stop_e") /\ ~(ws \subseteq pilled)
            \/ Is("tend") /\ E.t \in ws \ pilled
Star == CHOOSE p \in pend : p.k = E.k
\* the worker to be pilled now
Goal == IF Is("tend") /\ E.t \notin pilled THEN {E.t}
        ELSE IF Is("stop_e") THEN {CHOOSE w \in ws \ pilled : \A o \in ws \ pilled : w <= o}
        ELSE LET p == IF NeedK THEN Star ELSE First(IF Is("tend") THEN Own ELSE pend)
             IN IF Fate(p) = "cancelled" THEN (IF Targets(p) = {Limbo} THEN (IF pilled = {} THEN ws ELSE {}) ELSE Targets(p) \ pilled) ELSE {}
Ahead(w) == {p \in pend : Fate(p) = "ok" /\ w \in Targets(p)}
\* known to go to the same worker and to run before p
Rivals(p) == {o \in pend : /\ Targets(o) = Targets(p)
                           /\ Targets(p) = {Limbo} => o.key = p.key
                           /\ RunAt(o) <= RunAt(p)
                           /\ CkStop => Fate(o) = Fate(p)}
EnqAt(p, w) == w \in Targets(p) /\ (CkStop /\ Fate(p) # "never" => (Fate(p) = "cancelled" <=> (IF w = Limbo THEN pilled # {} ELSE w \in pilled))) /\ Enq(p, w)
TEnq ==
  /\ Silent
  /\ \/ NeedK /\ \E w \in ws \cup {Limbo} : EnqAt(First({Star} \cup Rivals(Star)), w)
     \/ NeedAll /\ \E w \in ws \cup {Limbo} : EnqAt(IF Is("tend") THEN First({First(Own)} \cup Rivals(First(Own))) ELSE First(pend), w)
     \/ (NeedPill \/ NeedK \/ NeedAll) /\ \E g \in Goal : Ahead(g) # {} /\ \E w \in ws \cup {Limbo} : EnqAt(First(Ahead(g)), w)
TPill == (NeedPill \/ NeedK \/ NeedAll) /\ Silent /\ \E w \in Goal : Ahead(w) = {} /\ PutPill(w)

THand == Is("hand") /\ HandBegin(E.k, E.n, E.key, E.t) /\ fut' = (E.k :> Future(E.k, E.key)) @@ fut /\ Step
THanded == Is("handed") /\ HandEnd(E.k, E.n) /\ Step
TRun == Is("run") /\ Step /\ \E w \in ws \cup {Limbo} : \E i \in 1..Len(q[w]) :
          q[w][i].k = E.k /\ Run(w, i, E.t, E.st = "ok")
TRan == Is("ran") /\ Ran(E.k, E.t) /\ Step
TStopB == Is("stop_b") /\ StopBegin(E.c) /\ Step
TStopE == Is("stop_e") /\ StopEnd(E.c) /\ Step
TWaitB == Is("wait_b") /\ WaitBegin /\ Step
TWaitE == Is("wait_e") /\ WaitEnd /\ Step
TDtorB == Is("dtor_b") /\ DtorBegin /\ Step
TDtorE == Is("dtor_e") /\ DtorEnd /\ Step
TExit == Is("tend") /\ WorkerExit(E.t) /\ Step
TQuiet == Is("quiet") /\ Quiet /\ Step
TSkip == (Is("tcreate") \/ Is("tjoin")) /\ UNCHANGED vars /\ Step
TEnd == Is("end") /\ Done /\ E.un = 0 /\ Step

TNext == THand \/ (UNCHANGED fut /\ (TEnq \/ TPill \/ THanded \/ TRun \/ TRan \/ TStopB \/ TStopE
         \/ TWaitB \/ TWaitE \/ TDtorB \/ TDtorE \/ TExit \/ TQuiet \/ TSkip \/ TEnd))
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
