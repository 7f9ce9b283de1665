--------------------------------- MODULE Exec ---------------------------------
(***************************************************************************)
(* Executors and lists of nodes.  Coroutines jump on executors or are      *)
(* attached to them in lists; every thread has a stack of activities.      *)
(* Executors: this thread, a new thread, none, boxes (what they are given  *)
(* is seen, and later resumed), queues with one worker, pools.  A          *)
(* type-erased reference is the executor it refers to.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES stk,     \* thread -> stack of activities, the topmost last: [kind, c (coroutine last
                   \*   running in it), live (still running), rest (yet to be handed on), x]
                   \*   kinds: "co" a call or resumption by the user, "list" attach_list,
                   \*   "lib" a thread of the library or its cancelling, "pool" a pool being made
          where,   \* coroutine -> "run", "inline", "new", "toBox", "given", "resumed", "queued", "inlist",
                   \*   "never", "parked", "done"
          at,      \* coroutine -> executor it was given to
          okc,     \* coroutine -> status it has to see: 1, 0, 2 (either)
          must,    \* thread -> what has to come next on it: [c, x]; absent: nothing particular
          fresh,   \* thread made for a coroutine -> that coroutine, 0 once it ran
          role,    \* thread -> queue or pool it works for
          before   \* coroutine -> coroutines that have to run before it (same list, one worker)
evars == <<stk, where, at, okc, must, fresh, role, before>>
EInit == /\ stk = << >> /\ where = << >> /\ at = << >> /\ okc = << >> /\ must = << >> /\ fresh = << >>
         /\ role = << >> /\ before = << >>

This == 1
New == 2
Noop == 3
IsBox(x) == x \in 10..19
IsQueue(x) == x \in 20..29
IsPool(x) == x \in 30..39
Less(f, k) == [y \in DOMAIN f \ {k} |-> f[y]]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == (k :> v) @@ f
Stack(t) == Get(stk, t, << >>)
N(t) == Len(Stack(t))
Act(k, c, x) == [kind |-> k, c |-> c, live |-> FALSE, rest |-> << >>, x |-> x]
Top(t) == IF N(t) = 0 THEN Act("none", 0, 0) ELSE Stack(t)[N(t)]
Free(t) == t \notin DOMAIN must
SetTop(t, a) == stk' = [stk EXCEPT ![t][N(t)] = a]
Push(t, a) == stk' = Put(stk, t, Append(Stack(t), a))
Pop(t) == stk' = [stk EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
Live(a, c) == [a EXCEPT !.c = c, !.live = TRUE]
Still(a) == [a EXCEPT !.live = FALSE]

\* c is called
Start(t, c) ==
  /\ Free(t) /\ c \notin DOMAIN where /\ Push(t, Live(Act("co", c, 0), c)) /\ where' = Put(where, c, "run")
  /\ UNCHANGED <<at, okc, must, fresh, role, before>>
\* the owner of a box resumes what lies in it
Resume(t, c, ok) ==
  /\ Free(t) /\ Get(where, c, "") = "given" /\ where' = Put(where, c, "resumed") /\ okc' = Put(okc, c, ok)
  /\ Push(t, Act("co", c, 0)) /\ must' = Put(must, t, [c |-> c, x |-> 0])
  /\ UNCHANGED <<at, fresh, role, before>>
\* a call or resumption of c returned: c does not run in it any more
Back(t, c) ==
  /\ Free(t) /\ Top(t).kind = "co" /\ Top(t).c = c /\ ~Top(t).live /\ Pop(t)
  /\ UNCHANGED <<where, at, okc, must, fresh, role, before>>
Runs(t, c) == Free(t) /\ Top(t).live /\ Top(t).c = c

Jump(t, c, x) ==
  /\ Runs(t, c) /\ SetTop(t, Still(Top(t)))
  /\ at' = Put(at, c, x) /\ before' = Put(before, c, {})
  /\ where' = Put(where, c, IF IsBox(x) THEN "toBox" ELSE IF IsQueue(x) \/ IsPool(x) THEN "queued"
                            ELSE IF x = Noop THEN "never" ELSE IF x = New THEN "new" ELSE "inline")
  /\ must' = IF x \in {This, New} \/ IsBox(x) THEN Put(must, t, [c |-> c, x |-> x]) ELSE must
  /\ okc' = Put(okc, c, IF IsQueue(x) \/ IsPool(x) THEN 2 ELSE 1)
  /\ UNCHANGED <<fresh, role>>
\* c put its node where lists are made of
Park(t, c) ==
  /\ Runs(t, c) /\ SetTop(t, Still(Top(t))) /\ where' = Put(where, c, "parked")
  /\ UNCHANGED <<at, okc, must, fresh, role, before>>
Fin(t, c) ==
  /\ Runs(t, c) /\ SetTop(t, Still(Top(t))) /\ where' = Put(where, c, "done")
  /\ UNCHANGED <<at, okc, must, fresh, role, before>>

\* --- lists
ToSet(s) == {s[i] : i \in 1..Len(s)}
NoDup(s) == Cardinality(ToSet(s)) = Len(s)
Idx(s, c) == CHOOSE i \in 1..Len(s) : s[i] = c
\* st: what the node of each says before it is handed on, 1 if nothing special; such a node is handed on
\* all the same, and whether its coroutine sees the old status is not said
ListBegin(t, x, l, st) ==
  /\ Len(st) = Len(l) /\ Free(t) /\ NoDup(l) /\ \A i \in 1..Len(l) : Get(where, l[i], "") = "parked"
  /\ before' = [c \in ToSet(l) |-> IF IsQueue(x) THEN {l[j] : j \in 1..(Idx(l, c) - 1)} ELSE {}] @@ before
  /\ at' = [c \in ToSet(l) |-> x] @@ at
  /\ okc' = [c \in ToSet(l) |-> IF IsQueue(x) \/ IsPool(x) \/ st[Idx(l, c)] # 1 THEN 2 ELSE 1] @@ okc
  /\ where' = [c \in ToSet(l) |-> IF IsQueue(x) \/ IsPool(x) THEN "queued" ELSE IF x = Noop THEN "never" ELSE "inlist"] @@ where
  /\ Push(t, [Act("list", 0, x) EXCEPT !.rest = IF IsQueue(x) \/ IsPool(x) \/ x = Noop THEN << >> ELSE l])
  /\ UNCHANGED <<must, fresh, role>>
ListEnd(t) ==
  /\ Free(t) /\ Top(t).kind = "list" /\ ~Top(t).live /\ Top(t).rest = << >> /\ Pop(t)
  /\ UNCHANGED <<where, at, okc, must, fresh, role, before>>
\* the list being attached goes on with c
IsNext(t, c, x) ==
  /\ Free(t) /\ Top(t).kind = "list" /\ Top(t).x = x /\ ~Top(t).live
  /\ IF Top(t).rest = << >> THEN FALSE ELSE Head(Top(t).rest) = c
Rest(a) == [a EXCEPT !.rest = Tail(@)]
\* box x is given c
HandBox(t, c, x) ==
  /\ IsBox(x)
  /\ IF t \in DOMAIN must THEN must[t] = [c |-> c, x |-> x] /\ must' = Less(must, t) /\ UNCHANGED stk
     ELSE IsNext(t, c, x) /\ SetTop(t, Rest(Top(t))) /\ UNCHANGED must
  /\ where' = Put(where, c, "given") /\ UNCHANGED <<at, okc, fresh, role, before>>
\* a thread is made
Thread(t, n) ==
  IF t \in DOMAIN must THEN
    /\ must[t].x = New /\ must' = Less(must, t) /\ fresh' = Put(fresh, n, must[t].c)
    /\ UNCHANGED <<stk, where, at, okc, role, before>>
  ELSE IF Top(t).kind = "list" THEN
    /\ IF Top(t).rest = << >> THEN FALSE
       ELSE IsNext(t, Head(Top(t).rest), New) /\ fresh' = Put(fresh, n, Head(Top(t).rest))
    /\ SetTop(t, Rest(Top(t)))
    /\ UNCHANGED <<where, at, okc, must, role, before>>
  ELSE \* a pool's worker
    /\ Top(t).kind = "pool" /\ role' = Put(role, n, Top(t).x) /\ UNCHANGED <<stk, where, at, okc, must, fresh, before>>
PoolBegin(t, x) == Free(t) /\ Push(t, Act("pool", 0, x)) /\ UNCHANGED <<where, at, okc, must, fresh, role, before>>
PoolEnd(t) == Free(t) /\ Top(t).kind = "pool" /\ Pop(t) /\ UNCHANGED <<where, at, okc, must, fresh, role, before>>
\* this thread works for queue or pool x: runs its coroutines, or cancels them, until it works for 0
Works(t, x) ==
  /\ Free(t) /\ role' = Put(role, t, x)
  /\ IF x = 0 THEN Top(t).kind = "lib" /\ ~Top(t).live /\ Pop(t) ELSE Push(t, Act("lib", 0, x))
  /\ UNCHANGED <<where, at, okc, must, fresh, before>>

\* c continues on t and sees status ok
Run(t, c, ok) ==
  /\ IF c \in DOMAIN okc THEN okc[c] \in {ok, 2} ELSE FALSE
  /\ Get(before, c, {}) = {} /\ before' = [d \in DOMAIN before |-> before[d] \ {c}]
  /\ IF t \in DOMAIN must THEN      \* inline
       /\ must[t].c = c /\ must[t].x \in {0, This} /\ must' = Less(must, t)
       /\ SetTop(t, Live(Top(t), c)) /\ UNCHANGED fresh
     ELSE IF Top(t).kind = "list" THEN
       /\ IsNext(t, c, This) /\ SetTop(t, Live(Rest(Top(t)), c)) /\ UNCHANGED <<must, fresh>>
     ELSE IF t \in DOMAIN fresh THEN
       /\ fresh[t] = c /\ N(t) = 0 /\ Push(t, Live(Act("lib", c, New), c)) /\ fresh' = Put(fresh, t, 0) /\ UNCHANGED must
     ELSE
       /\ where[c] = "queued" /\ Get(role, t, 0) = at[c]
       /\ N(t) = 0 \/ (Top(t).kind = "lib" /\ ~Top(t).live)
       /\ stk' = IF N(t) = 0 THEN Put(stk, t, <<Live(Act("lib", c, at[c]), c)>>) ELSE [stk EXCEPT ![t][N(t)] = Live(@, c)]
       /\ UNCHANGED <<must, fresh>>
  /\ where' = Put(where, c, "run")
  /\ UNCHANGED <<at, okc, role>>

Reversed(a, b) == Len(a) = Len(b) /\ (\A i \in 1..Len(a) : b[i] = a[Len(a) + 1 - i]) /\ UNCHANGED evars
\* a coroutine that never continues is thrown away
Drop(c) == Get(where, c, "") = "never" /\ where' = Put(where, c, "done")
           /\ UNCHANGED <<stk, at, okc, must, fresh, role, before>>
Done == (\A c \in DOMAIN where : where[c] = "done") /\ must = << >> /\ (\A n \in DOMAIN fresh : fresh[n] = 0)
=============================================================================
