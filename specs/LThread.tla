------------------------------- MODULE LThread -------------------------------
(***************************************************************************)
(* dd::logical_thread: a coroutine that starts at once; its handle can be  *)
(* joined, stopped, detached; destroying or assigning over it stops and    *)
(* joins.                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES st,     \* coroutine -> "running", "ending", "over" (it has let go of its frame)
          stop,   \* coroutine -> "no", "begun" (a request is in progress), "yes"
          own,    \* handle -> coroutine, or 0
          freed,  \* coroutines whose frame was destroyed
          loose,  \* detached, or being detached
          joins,  \* coroutines being joined by whoever holds them
          asks    \* token reads in progress: coroutine -> stop surely requested before
lvars == <<st, stop, own, freed, loose, joins, asks>>
LInit == st = << >> /\ stop = << >> /\ own = << >> /\ freed = {} /\ loose = {} /\ joins = {} /\ asks = << >>
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Dom(f, x) == x \in DOMAIN f
Held(c) == \E h \in DOMAIN own : own[h] = c
Unmade(c) == 0 - c

Start(c) == /\ ~Dom(st, c) /\ st' = Put(st, c, "running") /\ stop' = Put(stop, c, "no")
            /\ own' = Put(own, Unmade(c), c) /\ UNCHANGED <<freed, loose, joins, asks>>
Made(h, c) == /\ ~Dom(own, h) /\ Dom(own, Unmade(c)) /\ own' = Put(Del(own, Unmade(c)), h, c)
              /\ UNCHANGED <<st, stop, freed, loose, joins, asks>>
Empty(h) == ~Dom(own, h) /\ own' = Put(own, h, 0) /\ UNCHANGED <<st, stop, freed, loose, joins, asks>>
Live(c) == Dom(st, c) /\ st[c] = "running" /\ c \notin freed
BodyStep(c) == Live(c) /\ UNCHANGED lvars
BodyEnd(c) == Live(c) /\ st' = Put(st, c, "ending") /\ UNCHANGED <<stop, own, freed, loose, joins, asks>>
Over(c) == /\ Dom(st, c) /\ st[c] = "ending" /\ st' = Put(st, c, "over")
           /\ (c \in loose /\ c \notin joins) => c \in freed \/ \E h \in DOMAIN own : own[h] = c
           /\ UNCHANGED <<stop, own, freed, loose, joins, asks>>

TokBegin(c) == Live(c) /\ asks' = Put(asks, c, stop[c] = "yes") /\ UNCHANGED <<st, stop, own, freed, loose, joins>>
TokEnd(c, r) == /\ Dom(asks, c) /\ st[c] = "running" /\ c \notin freed
                /\ IF r THEN stop[c] # "no" ELSE ~asks[c]
                /\ asks' = Del(asks, c)
                \* once seen, it stays
                /\ stop' = IF r THEN Put(stop, c, "yes") ELSE stop
                /\ UNCHANGED <<st, own, freed, loose, joins>>
Begun(s) == [c \in DOMAIN stop |-> IF c \in s /\ stop[c] = "no" THEN "begun" ELSE stop[c]]
Yes(s) == [c \in DOMAIN stop |-> IF c \in s THEN "yes" ELSE stop[c]]
Of(hs) == {own[h] : h \in hs} \ {0}

StopBegin(h) == Dom(own, h) /\ stop' = Begun(Of({h})) /\ UNCHANGED <<st, own, freed, loose, joins, asks>>
StopEnd(h, r) == /\ Dom(own, h) /\ (r <=> own[h] # 0) /\ stop' = Yes(Of({h}))
                 /\ UNCHANGED <<st, own, freed, loose, joins, asks>>
\* join without a stop request; the others are preceded by one
JoinBegin(hs, withstop) ==
  /\ \A h \in hs : Dom(own, h)
  /\ joins' = joins \cup Of(hs)
  /\ stop' = IF withstop THEN Begun(Of(hs)) ELSE stop
  /\ UNCHANGED <<st, own, freed, loose, asks>>
\* all of them have ended and are gone
JoinEnd(hs, gone) ==
  /\ \A c \in Of(hs) : st[c] # "running" /\ c \in freed
  /\ joins' = joins \ Of(hs)
  /\ own' = [h \in DOMAIN own \ (IF gone THEN hs ELSE {}) |-> IF h \in hs THEN 0 ELSE own[h]]
  /\ UNCHANGED <<st, stop, freed, loose, asks>>
\* assignment: join what is there, then take over
AssignEnd(h, g) ==
  /\ Dom(own, h) /\ Dom(own, g)
  /\ \A c \in Of({h}) : st[c] # "running" /\ c \in freed
  /\ joins' = joins \ Of({h})
  /\ own' = [own EXCEPT ![h] = own[g], ![g] = 0]
  /\ UNCHANGED <<st, stop, freed, loose, asks>>
DetachBegin(h) == /\ Dom(own, h) /\ own[h] # 0 /\ loose' = loose \cup {own[h]} /\ UNCHANGED <<st, stop, own, freed, joins, asks>>
DetachEnd(h) == /\ Dom(own, h) /\ own[h] # 0 /\ (st[own[h]] = "over" => own[h] \in freed)
                /\ own' = Put(own, h, 0) /\ UNCHANGED <<st, stop, freed, loose, joins, asks>>
Free(c) == /\ Dom(st, c) /\ c \notin freed /\ st[c] # "running" /\ c \in loose \cup joins
           /\ freed' = freed \cup {c} /\ UNCHANGED <<st, stop, own, loose, joins, asks>>
MoveNew(h, g) == /\ Dom(own, h) /\ ~Dom(own, g) /\ own' = Put(Put(own, g, own[h]), h, 0)
                 /\ UNCHANGED <<st, stop, freed, loose, joins, asks>>
Swap(h, g) == /\ Dom(own, h) /\ Dom(own, g) /\ own' = [own EXCEPT ![h] = own[g], ![g] = own[h]]
              /\ UNCHANGED <<st, stop, freed, loose, joins, asks>>
Joinable(h, r) == Dom(own, h) /\ (r <=> own[h] # 0) /\ UNCHANGED lvars
\* nothing moves any more
Quiet == /\ joins = {} /\ \A c \in loose : st[c] # "running" /\ c \in freed
         /\ UNCHANGED lvars

OneOwner == \A h, g \in DOMAIN own : own[h] # 0 /\ own[h] = own[g] => h = g
NeverFreedEarly == \A c \in freed : st[c] # "running" /\ c \in loose \cup joins \cup {x \in DOMAIN st : ~Held(x)}
NoStopUnasked == \A c \in DOMAIN stop : c \in loose /\ ~Held(c) => stop[c] # "begun"
LTInv == OneOwner /\ NeverFreedEarly
=============================================================================
