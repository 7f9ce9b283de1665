-------------------------------- MODULE Event --------------------------------
(***************************************************************************)
(* Events (dd::event), and waiting for all / any of several events.        *)
(* A waiter s has a kind ("one", "all", "any") and one subscription per    *)
(* position.  A notification takes, in one atomic step, every subscription *)
(* of its event that took effect before, and delivers its value to them.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES kind,    \* waiter -> "one" | "all" | "any", while it waits
          npos,    \* waiter -> number of positions
          pend,    \* subscriptions not effective yet: [s, i, e]
          wait,    \* effective subscriptions
          calls,   \* notification c -> [e, v, inl (delivers before it returns), p (where), done, n]
          todo,    \* taken and not known to be delivered: [s, i, v, c, p]
          got      \* waiter -> position -> value, delivered (kind "all")

evars == <<kind, npos, pend, wait, calls, todo, got>>
EInit == kind = << >> /\ npos = << >> /\ pend = {} /\ wait = {} /\ calls = << >> /\ todo = {} /\ got = << >>
Dom(f, x) == x \in DOMAIN f
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

\* waiter s begins to wait for the events es (a sequence)
SubBegin(s, k, es) ==
  /\ ~Dom(kind, s)
  /\ kind' = Put(kind, s, k) /\ npos' = Put(npos, s, Len(es)) /\ got' = Put(got, s, << >>)
  /\ pend' = pend \cup {[s |-> s, i |-> i, e |-> es[i]] : i \in 1..Len(es)}
  /\ UNCHANGED <<wait, calls, todo>>
SubEffect(p) ==
  /\ p \in pend /\ pend' = pend \ {p} /\ wait' = wait \cup {p}
  /\ UNCHANGED <<kind, npos, calls, todo, got>>
SubEnd(s) == (\A p \in pend : p.s # s) /\ UNCHANGED evars

\* p: where its executor resumes: on the thread p, or p < 0: on threads of a kind
NotifyBegin(c, e, v, inl, p) ==
  /\ ~Dom(calls, c) /\ calls' = Put(calls, c, [e |-> e, v |-> v, inl |-> inl, p |-> p, done |-> FALSE, n |-> 0])
  /\ UNCHANGED <<kind, npos, pend, wait, todo, got>>
Take(c) ==
  /\ Dom(calls, c) /\ ~calls[c].done
  /\ LET w == {p \in wait : p.e = calls[c].e} IN
     /\ wait' = wait \ w
     /\ todo' = todo \cup {[s |-> p.s, i |-> p.i, v |-> calls[c].v, c |-> c, p |-> calls[c].p] : p \in w}
     /\ calls' = [calls EXCEPT ![c].done = TRUE, ![c].n = Cardinality(w)]
  /\ UNCHANGED <<kind, npos, pend, got>>
\* of waiter s nothing is left to be taken
AllTaken(s) == \A p \in pend \cup wait : p.s # s
NotifyEnd(c, ret) ==
  /\ Dom(calls, c) /\ calls[c].done
  /\ ret <=> calls[c].n > 0
  \* a notification on this thread has delivered everything when it returns
  \* (a wait for any may just be being resumed by another one)
  /\ calls[c].inl => /\ \A d \in todo : (d.c = c /\ Dom(kind, d.s)) =>
                          \/ kind[d.s] = "all"
                          \/ kind[d.s] = "any" /\ \E o \in todo : o.s = d.s /\ o.c # c
                     /\ got' = [s \in DOMAIN got |->
                          [i \in DOMAIN got[s] \cup {d.i : d \in {x \in todo : x.c = c /\ x.s = s}} |->
                             IF i \in DOMAIN got[s] THEN got[s][i]
                             ELSE (CHOOSE d \in todo : d.c = c /\ d.s = s /\ d.i = i).v]]
                     /\ todo' = {d \in todo : d.c # c}
                     \* the last delivery resumes
                     /\ \A s \in DOMAIN kind : kind[s] = "all" => Cardinality(DOMAIN got'[s]) < npos[s]
  /\ ~calls[c].inl => UNCHANGED <<got, todo>>
  /\ calls' = Drop(calls, c)
  /\ UNCHANGED <<kind, npos, pend, wait>>

Forget(s) == kind' = Drop(kind, s) /\ npos' = Drop(npos, s) /\ got' = Drop(got, s)
\* ps: names of the place where something is resumed
\* a waiter for one event is resumed with value v
RunOne(s, v, ps) ==
  /\ Dom(kind, s) /\ kind[s] = "one"
  /\ \E d \in todo : d.s = s /\ d.v = v /\ d.p \in ps /\ todo' = todo \ {d}
  /\ Forget(s) /\ UNCHANGED <<pend, wait, calls>>
\* a waiter for all events is resumed with the values vs
RunAll(s, vs, ps) ==
  /\ Dom(kind, s) /\ kind[s] = "all" /\ AllTaken(s) /\ Len(vs) = npos[s]
  /\ \A i \in 1..npos[s] : IF i \in DOMAIN got[s] THEN got[s][i] = vs[i]
                           ELSE \E d \in todo : d.s = s /\ d.i = i /\ d.v = vs[i]
  \* by the last of them
  /\ \E d \in todo : d.s = s /\ d.p \in ps
  /\ todo' = {d \in todo : d.s # s}
  /\ Forget(s) /\ UNCHANGED <<pend, wait, calls>>
\* a waiter for any event is resumed by position i with value v; other
\* positions may be subscribed and taken later, but that concerns nobody
RunAny(s, i, v, ps) ==
  /\ Dom(kind, s) /\ kind[s] = "any"
  /\ \E d \in todo : d.s = s /\ d.i = i /\ d.v = v /\ d.p \in ps
  /\ todo' = {d \in todo : ~(d.s = s /\ d.i = i)}
  /\ Forget(s) /\ UNCHANGED <<pend, wait, calls>>

\* nothing moves any more: everything that was taken has been resumed
Quiet ==
  /\ pend = {} /\ calls = << >>
  /\ \A d \in todo : (Dom(kind, d.s) => kind[d.s] = "all")
  /\ \A s \in DOMAIN kind : kind[s] = "all" => ~AllTaken(s)
  /\ UNCHANGED evars
Done == DOMAIN kind = {} /\ wait = {} /\ pend = {} /\ UNCHANGED evars

\* a subscription is in one place only
OncePerPosition ==
  \A p \in pend \cup wait : \A d \in todo : ~(d.s = p.s /\ d.i = p.i)
Disjoint == pend \cap wait = {}
\* who still waits for one event is somewhere
NobodyLost == \A s \in DOMAIN kind : kind[s] = "one" =>
   Cardinality({p \in pend \cup wait : p.s = s}) + Cardinality({d \in todo : d.s = s}) = 1
EventInv == OncePerPosition /\ Disjoint /\ NobodyLost
=============================================================================
