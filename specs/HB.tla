---------------------------------- MODULE HB ----------------------------------
(***************************************************************************)
(* Happens-before of the C++ memory model over an execution, kept as       *)
(* vector clocks: which synchronisation an execution performed, and that   *)
(* no two conflicting accesses of different threads are unordered by it.   *)
(* Atomics read the latest value (interleavings); the orders named in the  *)
(* program decide what becomes visible, not what the processor would do.   *)
(*   order: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
VARIABLES C,      \* thread -> what happens before its next operation
          pend,   \* thread -> what its relaxed loads have read (acquire fence)
          fence,  \* thread -> what happened before its last release fence
          M,      \* atomic object or lock -> what its value publishes
          W,      \* location -> <<thread, clock>> of the last write
          R,      \* location -> clocks of the reads
          AW, AR  \* location -> clocks of atomic writes, reads
hvars == <<C, pend, fence, M, W, R, AW, AR>>

Acq(o) == o \in {1, 2, 4, 5}
Rel(o) == o \in {3, 4, 5}
Join(a, b) == [i \in DOMAIN a |-> IF a[i] > b[i] THEN a[i] ELSE b[i]]
Leq(a, b) == \A i \in DOMAIN a : a[i] <= b[i]    \* << >>: nothing
Zero(n) == [i \in 1..n |-> 0]
Unit(n, t) == [i \in 1..n |-> IF i = t THEN 1 ELSE 0]

HInit(n, no, nl) ==
  /\ C = [t \in 1..n |-> Unit(n, t)] /\ pend = [t \in 1..n |-> Zero(n)] /\ fence = [t \in 1..n |-> Zero(n)]
  /\ M = [o \in 1..no |-> Zero(n)]
  /\ W = [l \in 1..nl |-> <<0, 0>>]
  /\ R = [l \in 1..nl |-> << >>] /\ AW = [l \in 1..nl |-> << >>] /\ AR = [l \in 1..nl |-> << >>]

Tick(c, t) == [c EXCEPT ![t] = @ + 1]
\* what t publishes with an operation of order o
Publishes(t, o) == IF Rel(o) THEN C[t] ELSE fence[t]

Load(t, o, ord) ==
  /\ C' = [C EXCEPT ![t] = Tick(IF Acq(ord) THEN Join(@, M[o]) ELSE @, t)]
  /\ pend' = [pend EXCEPT ![t] = Join(@, M[o])]
  /\ UNCHANGED <<fence, M, W, R, AW, AR>>
Store(t, o, ord) ==
  /\ M' = [M EXCEPT ![o] = Publishes(t, ord)]
  /\ C' = [C EXCEPT ![t] = Tick(@, t)]
  /\ UNCHANGED <<pend, fence, W, R, AW, AR>>
\* a read-modify-write continues the release sequence of the value it replaces
Rmw(t, o, ord) ==
  LET c == IF Acq(ord) THEN Join(C[t], M[o]) ELSE C[t] IN
  /\ M' = [M EXCEPT ![o] = Join(@, IF Rel(ord) THEN c ELSE fence[t])]
  /\ C' = [C EXCEPT ![t] = Tick(c, t)]
  /\ pend' = [pend EXCEPT ![t] = Join(@, M[o])]
  /\ UNCHANGED <<fence, W, R, AW, AR>>
Fence(t, ord) ==
  LET c == IF Acq(ord) THEN Join(C[t], pend[t]) ELSE C[t] IN
  /\ C' = [C EXCEPT ![t] = Tick(c, t)]
  /\ fence' = [fence EXCEPT ![t] = IF Rel(ord) THEN c ELSE @]
  /\ UNCHANGED <<pend, M, W, R, AW, AR>>
Lock(t, o) == C' = [C EXCEPT ![t] = Join(@, M[o])] /\ UNCHANGED <<pend, fence, M, W, R, AW, AR>>
Unlock(t, o) == /\ M' = [M EXCEPT ![o] = C[t]] /\ C' = [C EXCEPT ![t] = Tick(@, t)]
                /\ UNCHANGED <<pend, fence, W, R, AW, AR>>
Create(t, k) == /\ C' = [C EXCEPT ![t] = Tick(@, t), ![k] = Tick(Join(@, C[t]), k)]
                /\ UNCHANGED <<pend, fence, M, W, R, AW, AR>>
JoinThread(t, k) == C' = [C EXCEPT ![t] = Join(@, C[k])] /\ UNCHANGED <<pend, fence, M, W, R, AW, AR>>
\* the program waited until nothing moves, by means outside of the library
Quiescence(t) ==
  LET RECURSIVE all(_)
      all(k) == IF k = 0 THEN C[t] ELSE Join(all(k - 1), C[k]) IN
  C' = [C EXCEPT ![t] = all(Len(C))] /\ UNCHANGED <<pend, fence, M, W, R, AW, AR>>

Mark(v, t) == IF v = << >> THEN [i \in DOMAIN C[t] |-> IF i = t THEN C[t][t] ELSE 0] ELSE [v EXCEPT ![t] = C[t][t]]
Noted(F, t, add, clear) ==
  IF add = {} /\ (\A l \in clear : F[l] = << >>) THEN F
  ELSE [l \in DOMAIN F |-> IF l \in add THEN Mark(F[l], t) ELSE IF l \in clear THEN << >> ELSE F[l]]
\* the accesses of t between two synchronisations, to the locations rs, ws, ars, aws
Owned(t, l) == IF W[l][1] = 0 THEN TRUE ELSE W[l][2] <= C[t][W[l][1]]
Access(t, rs, ws, ars, aws) ==
  /\ \A l \in rs : Owned(t, l) /\ Leq(AW[l], C[t])
  /\ \A l \in ws : Owned(t, l) /\ Leq(R[l], C[t]) /\ Leq(AW[l], C[t]) /\ Leq(AR[l], C[t])
  /\ \A l \in ars : Owned(t, l)
  /\ \A l \in aws : Owned(t, l) /\ Leq(R[l], C[t])
  /\ W' = IF ws = {} THEN W ELSE [l \in DOMAIN W |-> IF l \in ws THEN <<t, C[t][t]>> ELSE W[l]]
  \* what comes after the write comes after everything before the write: forget it
  /\ R' = Noted(R, t, rs, ws) /\ AR' = Noted(AR, t, ars, ws) /\ AW' = Noted(AW, t, aws, ws)
  /\ UNCHANGED <<C, pend, fence, M>>
\* giving memory back comes after every access to it: it is a write to all of it
Read(t, l) == Access(t, {l}, {}, {}, {})
Write(t, l) == Access(t, {}, {l}, {}, {})
AtomicRead(t, l) == Access(t, {}, {}, {l}, {})
AtomicWrite(t, l) == Access(t, {}, {}, {}, {l})
=============================================================================
