--------------------------------- MODULE MCHB ---------------------------------
(***************************************************************************)
(* The vector clocks of HB decide exactly the races of the definition:     *)
(* happens-before is the transitive closure of program order and           *)
(* synchronises-with (release sequences, fences, locks), and a race is a   *)
(* pair of conflicting accesses, not both atomic, that it does not order.  *)
(* All executions up to a length are compared.                             *)
(***************************************************************************)
EXTENDS HB, FiniteSets
CONSTANTS N, MaxLen, Alphabet
VARIABLES h, raced
vars == <<hvars, h, raced>>
\* operations: <<kind, order>>; one atomic object 1, one lock 2, one location 1
\* the atomic object may also be accessed as memory: kinds "r", "w" are plain accesses to location 1
SW == {<<"W", 3>>, <<"R", 2>>, <<"X", 4>>, <<"X", 0>>, <<"W", 0>>, <<"r", 0>>, <<"w", 0>>}
Fences == {<<"W", 0>>, <<"R", 0>>, <<"X", 3>>, <<"F", 2>>, <<"F", 3>>, <<"r", 0>>, <<"w", 0>>}
Locks == {<<"l", 0>>, <<"u", 0>>, <<"X", 2>>, <<"X", 3>>, <<"r", 0>>, <<"w", 0>>}
Mixed == {<<"aw", 0>>, <<"ar", 0>>, <<"w", 0>>, <<"r", 0>>, <<"W", 3>>, <<"R", 2>>}
Ops == CASE Alphabet = "sw" -> SW [] Alphabet = "fence" -> Fences [] Alphabet = "lock" -> Locks [] OTHER -> Mixed

Init == HInit(N, 2, 1) /\ h = << >> /\ raced = FALSE
Owner == LET s == {i \in DOMAIN h : h[i][2] \in {"l", "u"}} IN
         IF s = {} THEN 0 ELSE LET i == CHOOSE i \in s : \A j \in s : j <= i IN IF h[i][2] = "l" THEN h[i][1] ELSE 0
Do(t, op) ==
  LET k == op[1] IN
  CASE k = "W" -> Store(t, 1, op[2]) [] k = "R" -> Load(t, 1, op[2]) [] k = "X" -> Rmw(t, 1, op[2])
    [] k = "F" -> Fence(t, op[2]) [] k = "l" -> Lock(t, 2) [] k = "u" -> Unlock(t, 2)
    [] k = "r" -> Read(t, 1) [] k = "w" -> Write(t, 1) [] k = "ar" -> AtomicRead(t, 1) [] k = "aw" -> AtomicWrite(t, 1)
Next ==
  /\ Len(h) < MaxLen /\ ~raced
  /\ \E t \in 1..N, op \in Ops :
       /\ op[1] = "l" => Owner = 0
       /\ op[1] = "u" => Owner = t
       \* threads appear in order: they are interchangeable
       /\ t = 1 \/ \E i \in DOMAIN h : h[i][1] = t - 1
       /\ h' = Append(h, <<t, op[1], op[2]>>)
       /\ IF ENABLED Do(t, op) THEN Do(t, op) /\ UNCHANGED raced ELSE raced' = TRUE /\ UNCHANGED hvars
Spec == Init /\ [][Next]_vars

I == DOMAIN h
Writes == {i \in I : h[i][2] \in {"W", "X"}}
Reads == {i \in I : h[i][2] \in {"R", "X"}}
Last(S) == CHOOSE i \in S : \A j \in S : j <= i
\* the write whose value i reads; 0 the initial value
Rf(i) == LET s == {w \in Writes : w < i} IN IF s = {} THEN 0 ELSE Last(s)
\* j is in the release sequence that w heads: w, then read-modify-writes only
InSeq(w, j) == w <= j /\ \A k \in Writes : (w < k /\ k <= j) => h[k][2] = "X"
Po(i, j) == i < j /\ h[i][1] = h[j][1]
RelFence(i) == h[i][2] = "F" /\ Rel(h[i][3])
AcqFence(i) == h[i][2] = "F" /\ Acq(h[i][3])
Sw(i, j) ==
  \/ \E w \in Writes, x \in Reads :
       /\ (w = i /\ Rel(h[i][3])) \/ (RelFence(i) /\ Po(i, w))
       /\ (x = j /\ Acq(h[j][3])) \/ (AcqFence(j) /\ Po(x, j))
       /\ w < x /\ Rf(x) # 0 /\ InSeq(w, Rf(x))
  \/ h[i][2] = "u" /\ h[j][2] = "l" /\ i < j
RECURSIVE Before(_, _)
Before(i, j) == \E k \in I : (Po(i, k) \/ Sw(i, k)) /\ (k = j \/ (k < j /\ Before(k, j)))
Acc == {i \in I : h[i][2] \in {"r", "w", "ar", "aw"}}
Conflict(i, j) == /\ h[i][1] # h[j][1] /\ {h[i][2], h[j][2]} \cap {"w", "aw"} # {}
                  /\ {h[i][2], h[j][2]} \cap {"r", "w"} # {}
Race == \E i, j \in Acc : i < j /\ Conflict(i, j) /\ ~Before(i, j)
Exact == raced <=> Race
=============================================================================
