------------------------------ MODULE AsyncTask ------------------------------
(***************************************************************************)
(* dd::async_task: a coroutine that starts at once and is owned by itself  *)
(* (until its end) and by at most one handle.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES st,     \* coroutine -> "running", "ending" (its body has ended), "ready" (surely), "over" (it has let go)
          out,    \* coroutine -> outcome [kind, v] of its body
          own,    \* handle -> coroutine, or 0
          freed,  \* coroutines whose frame was destroyed
          leaving,\* handles being detached or destroyed -> the coroutine they held
          asks    \* wait / get / ready in progress: thread -> [h, sure]
avars == <<st, out, own, freed, leaving, asks>>
AInit == st = << >> /\ out = << >> /\ own = << >> /\ freed = {} /\ leaving = << >> /\ asks = << >>
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Dom(f, x) == x \in DOMAIN f
Held(c) == \E h \in DOMAIN own : own[h] = c
Alive(c) == c \notin freed

\* the handle which the call that starts c is about to return
Unmade(c) == 0 - c
Start(c) == ~Dom(st, c) /\ st' = Put(st, c, "running")
            /\ own' = Put(own, Unmade(c), c) /\ UNCHANGED <<out, freed, leaving, asks>>
\* the call that started c returned: handle h holds it
Made(h, c) == /\ Dom(st, c) /\ ~Dom(own, h) /\ Dom(own, Unmade(c)) /\ Alive(c)
              /\ own' = Put(Del(own, Unmade(c)), h, c) /\ UNCHANGED <<st, out, freed, leaving, asks>>
Empty(h) == ~Dom(own, h) /\ own' = Put(own, h, 0) /\ UNCHANGED <<st, out, freed, leaving, asks>>
\* the body goes on
BodyStep(c) == Dom(st, c) /\ st[c] = "running" /\ Alive(c) /\ UNCHANGED avars
BodyEnd(c, o) == /\ Dom(st, c) /\ st[c] = "running" /\ Alive(c)
                 /\ st' = Put(st, c, "ending") /\ out' = Put(out, c, o) /\ UNCHANGED <<own, freed, leaving, asks>>
\* the thread that ran the body to its end has come back from it
Over(c) == /\ Dom(st, c) /\ st[c] # "running" /\ st' = Put(st, c, "over")
           /\ (~Held(c) /\ ~\E h \in DOMAIN leaving : leaving[h] = c) => c \in freed
           /\ UNCHANGED <<out, own, freed, leaving, asks>>

Ask(t, h) == /\ Dom(own, h) /\ ~Dom(asks, t)
             /\ asks' = Put(asks, t, [h |-> h, sure |-> own[h] # 0 /\ st[own[h]] \in {"ready", "over"}])
             /\ UNCHANGED <<st, out, own, freed, leaving>>
\* once somebody has seen it ready, it is
Sure(c) == st' = IF c = 0 \/ st[c] = "over" THEN st ELSE Put(st, c, "ready")
IsReady(c) == st[c] \in {"ending", "ready", "over"} /\ Alive(c)
Waited(t) == /\ Dom(asks, t) /\ asks' = Del(asks, t)
             /\ LET c == own[asks[t].h] IN (c # 0 => IsReady(c)) /\ Sure(c)
             /\ UNCHANGED <<out, own, freed, leaving>>
Got(t, o) == /\ Dom(asks, t) /\ asks' = Del(asks, t)
             /\ LET c == own[asks[t].h] IN c # 0 /\ IsReady(c) /\ out[c] = o /\ Sure(c)
             /\ UNCHANGED <<out, own, freed, leaving>>
ReadySaid(t, r) == /\ Dom(asks, t) /\ asks' = Del(asks, t)
                   /\ LET c == own[asks[t].h] IN
                      /\ r => c # 0 /\ IsReady(c)
                      /\ ~r => ~asks[t].sure
                      /\ IF r THEN Sure(c) ELSE UNCHANGED st
                   /\ UNCHANGED <<out, own, freed, leaving>>

LetGo(h) == /\ Dom(own, h) /\ ~Dom(leaving, h)
            /\ leaving' = Put(leaving, h, own[h]) /\ own' = Put(own, h, 0)
            /\ UNCHANGED <<st, out, freed, asks>>
LetGone(h, gone) ==
  /\ Dom(leaving, h)
  /\ LET c == leaving[h] IN c # 0 => (st[c] = "over" => c \in freed)
  /\ leaving' = Del(leaving, h) /\ own' = IF gone THEN Del(own, h) ELSE own
  /\ UNCHANGED <<st, out, freed, asks>>
\* the frame is destroyed: everybody is through with it
Free(c) == /\ Dom(st, c) /\ c \notin freed /\ st[c] # "running" /\ ~Held(c)
           /\ freed' = freed \cup {c} /\ UNCHANGED <<st, out, own, leaving, asks>>

MoveNew(h, g) == /\ Dom(own, h) /\ ~Dom(own, g)
                 /\ own' = Put(Put(own, g, own[h]), h, 0) /\ UNCHANGED <<st, out, freed, leaving, asks>>
Swap(h, g) == /\ Dom(own, h) /\ Dom(own, g)
              /\ own' = [own EXCEPT ![h] = own[g], ![g] = own[h]] /\ UNCHANGED <<st, out, freed, leaving, asks>>
IsEmpty(h, e) == Dom(own, h) /\ (e <=> own[h] = 0) /\ UNCHANGED avars
\* nothing moves any more
Quiet == /\ \A c \in DOMAIN st : st[c] # "running" /\ (c \in freed <=> ~Held(c))
         /\ leaving = << >> /\ asks = << >>
         /\ UNCHANGED avars

\* the properties
OneOwner == \A h, g \in DOMAIN own : own[h] # 0 /\ own[h] = own[g] => h = g
NeverFreedEarly == \A c \in freed : st[c] # "running" /\ ~Held(c)
AsyncInv == OneOwner /\ NeverFreedEarly
=============================================================================
