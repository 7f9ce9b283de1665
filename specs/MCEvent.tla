------------------------------- MODULE MCEvent -------------------------------
(* Small closed instance: waiters of every kind, concurrent notifications.  *)
EXTENDS Event
CONSTANTS Waiters, Calls, EvOf(_), KindOf(_), InlOf(_)
VARIABLES begun,    \* waiter -> calls that had ended when it began to wait
          ended,    \* calls that returned
          seen,     \* call -> subscriptions effective when it began
          subdone,  \* waiters whose subscribing call returned
          res       \* waiter -> how it was resumed
mvars == <<evars, begun, ended, seen, subdone, res>>

EventsOf(s) == EvOf(s)
MCInit == EInit /\ begun = << >> /\ ended = {} /\ seen = << >> /\ subdone = {} /\ res = << >>
Keep == UNCHANGED <<begun, ended, seen, subdone, res>>
\* call c notifies event (c % 2) + 1 with value c
Ev(c) == (c % 2) + 1
MCNext ==
  \/ \E s \in Waiters : /\ s \notin DOMAIN begun /\ SubBegin(s, KindOf(s), EventsOf(s))
                        /\ begun' = Put(begun, s, ended) /\ UNCHANGED <<ended, seen, subdone, res>>
  \/ \E p \in pend : SubEffect(p) /\ Keep
  \/ \E s \in Waiters : /\ s \in DOMAIN begun /\ s \notin subdone /\ SubEnd(s)
                        /\ subdone' = subdone \cup {s} /\ UNCHANGED <<begun, ended, seen, res>>
  \/ \E c \in Calls : /\ c \notin ended /\ NotifyBegin(c, Ev(c), c, InlOf(c), c)
                      /\ seen' = Put(seen, c, {p \in wait : p.e = Ev(c) /\ p.s \in subdone})
                      /\ UNCHANGED <<begun, ended, subdone, res>>
  \/ \E c \in DOMAIN calls : Take(c) /\ Keep
  \/ \E c \in DOMAIN calls, r \in BOOLEAN : /\ NotifyEnd(c, r) /\ ended' = ended \cup {c}
                                            /\ UNCHANGED <<begun, seen, subdone, res>>
  \/ \E s \in DOMAIN kind, d \in todo :
       /\ d.s = s
       /\ \/ RunOne(s, d.v, Calls) /\ res' = Put(res, s, <<d.v>>)
          \/ RunAny(s, d.i, d.v, Calls) /\ res' = Put(res, s, <<d.v>>)
       /\ UNCHANGED <<begun, ended, seen, subdone>>
  \/ \E s \in DOMAIN kind : kind[s] = "all" /\ npos[s] = 2 /\ \E a, b \in Calls :
       /\ RunAll(s, <<a, b>>, Calls) /\ res' = Put(res, s, <<a, b>>)
       /\ UNCHANGED <<begun, ended, seen, subdone>>
MCSpec == MCInit /\ [][MCNext]_mvars

Range(f) == {f[x] : x \in DOMAIN f}
\* a value comes from a notification of that position's event which was not over when the wait began
ResumedByOverlapping ==
  \A s \in DOMAIN res : \A i \in DOMAIN res[s] :
     /\ res[s][i] \notin begun[s]
     /\ IF KindOf(s) = "all" \/ KindOf(s) = "one" THEN Ev(res[s][i]) = EventsOf(s)[i] ELSE Ev(res[s][i]) \in Range(EventsOf(s))
\* a notification leaves nobody behind who waited before it began: who waits
\* for one event is resumed, or about to be
NobodyLeftBehind ==
  \A c \in ended : c \in DOMAIN seen => \A p \in seen[c] :
     /\ p \notin wait
     /\ InlOf(c) /\ KindOf(p.s) = "one" => p.s \in DOMAIN res \/ \E d \in todo : d.s = p.s /\ d.c # c
\* all: resumed exactly when every position has a value; never before
AllNeedsAll == \A s \in DOMAIN res : KindOf(s) = "all" => \A p \in pend \cup wait : p.s # s
\* a wait for all whose positions were all delivered by finished inline calls is resumed
AllResumed ==
  \A s \in DOMAIN kind : kind[s] = "all" /\ AllTaken(s) /\ s \in subdone =>
       \E d \in todo : d.s = s
AnyResumed ==
  \A s \in DOMAIN kind : kind[s] \in {"any", "one"} /\ (\E i \in 1..npos[s] : ~\E p \in pend \cup wait : p.s = s /\ p.i = i) =>
       \E d \in todo : d.s = s
=============================================================================
