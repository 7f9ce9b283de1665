------------------------------ MODULE TraceBatch ------------------------------
(***************************************************************************)
(* Batch trace validation.  One TLC run validates all traces of a file:    *)
(* the trace number is chosen in the initial state, register tid holds the *)
(* length of the longest explained prefix of trace tid.  A trace is        *)
(* accepted when some behaviour of the specification consumes all of it.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, FiniteSets

VARIABLES tid, pos

Traces == ndJsonDeserialize(IOEnv.VTRACES)
T == Traces[tid]
Len_ == Len(T.ev)
More == pos <= Len_
E == T.ev[pos]
Is(name) == More /\ E.e = name
Step == pos' = pos + 1 /\ UNCHANGED tid
Silent == UNCHANGED <<tid, pos>>

BatchInit == tid \in 1..Len(Traces) /\ pos = 1 /\ TLCSet(tid, 1)

\* CONSTRAINT: records progress, and prunes a trace that is accepted already
Progress ==
  LET best == TLCGet(tid) IN
  /\ best <= Len_
  /\ IF pos > best THEN TLCSet(tid, pos) ELSE TRUE

Rejected == {n \in 1..Len(Traces) : TLCGet(n) <= Len(Traces[n].ev)}
\* POSTCONDITION
Accepted ==
  /\ \A n \in Rejected : PrintT(<<"REJECT", n, TLCGet(n)>>)
  /\ PrintT(<<"BATCH", Len(Traces), Cardinality(Rejected)>>)
=============================================================================
