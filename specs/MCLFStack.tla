------------------------------ MODULE MCLFStack ------------------------------
(***************************************************************************)
(* The stack's algorithm (load, then compare-exchange in a loop; exchange  *)
(* with null) step by step, with the nodes' next fields as real memory.    *)
(* Checked: every behaviour of the algorithm is a behaviour of LFStack.    *)
(* Nodes popped may be pushed again (ABA is part of the instance).         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Threads, Nodes, MaxCalls
Nil == 0
VARIABLES top, next, pc, first, last, exp, owner, got, left,
          \* the abstract state, driven by the linearization points
          st, calls, where
A == INSTANCE LFStack
iv == <<top, next, pc, first, last, exp, owner, got, left>>
mvars == <<iv, st, calls, where>>

RECURSIVE Chain(_, _)
Chain(n, nx) == IF n = Nil THEN << >> ELSE <<n>> \o Chain(nx[n], nx)

Init ==
  /\ top = Nil /\ next = [n \in Nodes |-> Nil]
  /\ pc = [t \in Threads |-> "idle"] /\ first = [t \in Threads |-> Nil] /\ last = [t \in Threads |-> Nil]
  /\ exp = [t \in Threads |-> Nil] /\ got = [t \in Threads |-> Nil]
  /\ owner = [n \in Nodes |-> IF n \in Threads THEN n ELSE 1]
  /\ left = [t \in Threads |-> MaxCalls]
  /\ A!LInit

Mine(t) == {n \in Nodes : owner[n] = t}
\* push of one node, or push_stack of two nodes linked by the caller
BeginPush(t) ==
  /\ pc[t] = "idle" /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1]
  /\ \/ \E n \in Mine(t) :
          /\ first' = [first EXCEPT ![t] = n] /\ last' = [last EXCEPT ![t] = n]
          /\ owner' = [owner EXCEPT ![n] = Nil]
          /\ UNCHANGED next /\ A!Call(t, "push", <<n>>)
     \/ \E n, m \in Mine(t) :
          /\ n # m
          /\ first' = [first EXCEPT ![t] = n] /\ last' = [last EXCEPT ![t] = m]
          /\ owner' = [owner EXCEPT ![n] = Nil, ![m] = Nil]
          /\ next' = [next EXCEPT ![n] = m] /\ A!Call(t, "push", <<n, m>>)
  /\ pc' = [pc EXCEPT ![t] = "load"]
  /\ UNCHANGED <<top, exp, got>>
Load(t) ==  \* value->next = top.load(relaxed): any value top had may be read, the CAS decides
  /\ pc[t] = "load"
  /\ exp' = [exp EXCEPT ![t] = top] /\ next' = [next EXCEPT ![last[t]] = top]
  /\ pc' = [pc EXCEPT ![t] = "cas"]
  /\ UNCHANGED <<top, first, last, owner, got, left, st, calls, where>>
CasOk(t) ==
  /\ pc[t] = "cas" /\ top = exp[t]
  /\ top' = first[t] /\ pc' = [pc EXCEPT ![t] = "pushed"] /\ A!Effect(t)
  /\ UNCHANGED <<next, first, last, exp, owner, got, left>>
CasFail(t) ==  \* also spuriously
  /\ pc[t] = "cas"
  /\ exp' = [exp EXCEPT ![t] = top] /\ next' = [next EXCEPT ![last[t]] = top]
  /\ UNCHANGED <<top, pc, first, last, owner, got, left, st, calls, where>>
EndPush(t) ==
  /\ pc[t] = "pushed" /\ pc' = [pc EXCEPT ![t] = "idle"] /\ A!Return(t, << >>)
  /\ UNCHANGED <<top, next, first, last, exp, owner, got, left>>
BeginPop(t) ==
  /\ pc[t] = "idle" /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1]
  /\ pc' = [pc EXCEPT ![t] = "xchg"] /\ A!Call(t, "pop", << >>)
  /\ UNCHANGED <<top, next, first, last, exp, owner, got>>
Xchg(t) ==
  /\ pc[t] = "xchg" /\ got' = [got EXCEPT ![t] = top] /\ top' = Nil /\ A!Effect(t)
  /\ pc' = [pc EXCEPT ![t] = "popped"]
  /\ UNCHANGED <<next, first, last, exp, owner, left>>
EndPop(t) ==  \* the caller walks the list it got, and owns its nodes
  /\ pc[t] = "popped" /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ A!Return(t, Chain(got[t], next))
  /\ owner' = [n \in Nodes |-> IF n \in A!Range(Chain(got[t], next)) THEN t ELSE owner[n]]
  /\ UNCHANGED <<top, next, first, last, exp, got, left>>
Next == \E t \in Threads : BeginPush(t) \/ Load(t) \/ CasOk(t) \/ CasFail(t) \/ EndPush(t) \/ BeginPop(t) \/ Xchg(t) \/ EndPop(t)
Spec == Init /\ [][Next]_mvars

\* the memory always spells the abstract stack, and no call returns anything else
Refines == Chain(top, next) = st
PopRefines == \A t \in Threads : pc[t] = "popped" => Chain(got[t], next) = calls[t].res
LFInv == A!LFInv
\* a finished pop can always return (its result is what the abstract pop returned)
AllReturn == \A t \in Threads : pc[t] = "popped" => ENABLED EndPop(t)
=============================================================================
