------------------------------- MODULE LFStack -------------------------------
(***************************************************************************)
(* A lock-free stack of intrusive nodes as its users see it: every call    *)
(* takes effect in one atomic step between its beginning and its end.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES st,     \* the stack, newest first
          calls,  \* thread -> [op, arg, done, res]
          where   \* node -> "out" (not in the stack), "in" (handed to it)
lvars == <<st, calls, where>>

LInit == st = << >> /\ calls = << >> /\ where = << >>
Own(f, x) == x \in DOMAIN f
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Range(s) == {s[i] : i \in 1..Len(s)}

\* op is "push" (list: the nodes to add, first becomes the top) or "pop"
Call(t, op, list) ==
  /\ ~Own(calls, t)
  /\ calls' = Put(calls, t, [op |-> op, arg |-> list, done |-> FALSE, res |-> << >>])
  /\ \A n \in Range(list) : ~(Own(where, n) /\ where[n] = "in")
  /\ where' = [n \in DOMAIN where \cup Range(list) |-> IF n \in Range(list) THEN "in" ELSE where[n]]
  /\ UNCHANGED st
Effect(t) ==
  /\ Own(calls, t) /\ ~calls[t].done
  /\ IF calls[t].op = "push"
     THEN st' = calls[t].arg \o st /\ calls' = [calls EXCEPT ![t].done = TRUE]
     ELSE st' = << >> /\ calls' = [calls EXCEPT ![t].done = TRUE, ![t].res = st]
  /\ UNCHANGED where
Return(t, res) ==
  /\ Own(calls, t) /\ calls[t].done
  /\ calls[t].op = "pop" => calls[t].res = res
  /\ calls' = Without(calls, t)
  /\ where' = [n \in DOMAIN where |-> IF calls[t].op = "pop" /\ n \in Range(res) THEN "out" ELSE where[n]]
  /\ UNCHANGED st

NoDup == \A i, j \in 1..Len(st) : st[i] = st[j] => i = j
InStack == \A i \in 1..Len(st) : where[st[i]] = "in"
\* a node that was handed over is in the stack, in a push that has not taken effect or in a pop's result
Held == UNION {IF calls[t].op = "push" /\ ~calls[t].done THEN Range(calls[t].arg)
               ELSE IF calls[t].op = "pop" THEN Range(calls[t].res) ELSE {} : t \in DOMAIN calls}
NothingLost == {n \in DOMAIN where : where[n] = "in"} = Range(st) \cup Held
ResultsDisjoint == \A t, u \in DOMAIN calls :
  t # u /\ calls[t].op = "pop" /\ calls[u].op = "pop" => Range(calls[t].res) \cap Range(calls[u].res) = {}
LFInv == NoDup /\ InStack /\ NothingLost /\ ResultsDisjoint
=============================================================================
