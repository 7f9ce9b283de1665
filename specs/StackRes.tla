------------------------------- MODULE StackRes -------------------------------
(***************************************************************************)
(* dd::stack_resource as its users see it: blocks handed out last in first *)
(* out from regions the resource owns (a given buffer, chunks obtained     *)
(* from the system).                                                       *)
(* A resource is a record                                                  *)
(*   own    regions it owns (region 0 does not exist)                      *)
(*   buf    the given buffer among them, 0 if none                         *)
(*   stk    regions on its stack, the current one last                     *)
(*   live   blocks handed out: [b, o, n] region, offset, length            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Align,   \* of coroutine frames
          Slack    \* what the resource may need for itself in a region from the system
VARIABLES res,     \* resource -> record
          size,    \* region -> bytes
          call     \* call in progress: [r, what, n, fresh (regions obtained by it), gone (given back by it)]
svars == <<res, size, call>>

None == [r |-> 0, what |-> "none", n |-> 0, fresh |-> {}, gone |-> {}]
SInit == res = << >> /\ size = << >> /\ call = None
Up(n) == ((n + Align - 1) \div Align) * Align
Last(s) == s[Len(s)]
Cut(s, i) == SubSeq(s, 1, i)
Idx(s, b) == IF \E i \in DOMAIN s : s[i] = b THEN CHOOSE i \in DOMAIN s : s[i] = b ELSE 0

Create(r, b, n) ==
  /\ r \notin DOMAIN res /\ call = None
  /\ res' = (r :> [own |-> {b} \ {0}, buf |-> b, stk |-> IF b = 0 THEN << >> ELSE <<b>>, live |-> << >>]) @@ res
  /\ size' = IF b = 0 THEN size ELSE (b :> n) @@ size
  /\ UNCHANGED call

Begin(r, what, n) == call = None /\ r \in DOMAIN res /\ call' = [None EXCEPT !.r = r, !.what = what, !.n = n] /\ UNCHANGED <<res, size>>

\* --- memory from and to the system
SysNew(b, n) ==
  /\ call.what = "alloc"
  /\ size' = (b :> n) @@ size /\ call' = [call EXCEPT !.fresh = @ \cup {b}] /\ UNCHANGED res
SysDel(b) ==
  /\ call.what = "destroy"
  /\ b \in res[call.r].own \ {res[call.r].buf} /\ b \notin call.gone
  /\ call' = [call EXCEPT !.gone = @ \cup {b}] /\ UNCHANGED <<res, size>>

\* --- allocate
Cap(x, b) == IF b = x.buf THEN size[b] ELSE size[b] - Slack
EndIn(x, b) == LET s == {i \in DOMAIN x.live : x.live[i].b = b} IN
               IF s = {} THEN IF b = x.buf THEN 0 ELSE Slack
               ELSE LET i == CHOOSE i \in s : \A j \in s : j <= i IN x.live[i].o + Up(x.live[i].n)
\* memory above all blocks that could serve n bytes
Fits(x, n) ==
  \/ x.stk # << >> /\ size[Last(x.stk)] - EndIn(x, Last(x.stk)) >= Up(n)
  \/ \E b \in x.own : (\A i \in DOMAIN x.stk : x.stk[i] # b) /\ Cap(x, b) >= Up(n)
Apart(p, q) == p.b = q.b => ~(p.o < q.o + q.n /\ q.o < p.o + p.n)
Allocated(b, o, al) ==
  LET x == res[call.r]
      p == [b |-> b, o |-> o, n |-> call.n]
      i == Idx(x.stk, b)
      free(k) == \A l \in DOMAIN x.live : x.live[l].b # x.stk[k] IN
  /\ call.what = "alloc" /\ al = 0
  /\ b \in x.own \cup call.fresh
  /\ o >= 0 /\ o + call.n <= size[b]
  /\ {k \in DOMAIN x.live : ~Apart(p, x.live[k])} = {}
  /\ IF call.fresh = {} THEN TRUE ELSE ~Fits(x, call.n)
  /\ Cardinality(call.fresh) <= 1
  /\ res' = [res EXCEPT ![call.r].own = @ \cup call.fresh,
                        ![call.r].live = Append(@, p),
                        ![call.r].stk = IF i = 0 THEN Append(@, b)
                                        ELSE IF \A k \in (i + 1)..Len(x.stk) : free(k) THEN Cut(@, i) ELSE @]
  /\ call' = None /\ UNCHANGED size
\* the system had no memory: nothing has changed
Failed == call.what = "alloc" /\ call.fresh = {} /\ ~Fits(res[call.r], call.n) /\ call' = None /\ UNCHANGED <<res, size>>

\* --- give back the last block; its contents were as the user left them
Dealloc(r, intact) ==
  LET x == res[r] IN
  /\ call = None /\ r \in DOMAIN res /\ x.live # << >> /\ intact
  /\ res' = [res EXCEPT ![r].live = Cut(@, Len(@) - 1),
                        ![r].stk = LET i == Idx(@, Last(x.live).b) IN Cut(@, i)]
  /\ UNCHANGED <<size, call>>
\* give back everything at once
Reuse(r, intact) ==
  /\ call = None /\ r \in DOMAIN res /\ intact
  /\ res' = [res EXCEPT ![r].live = << >>, ![r].stk = IF res[r].buf = 0 THEN << >> ELSE <<res[r].buf>>]
  /\ UNCHANGED <<size, call>>

Empty == [own |-> {}, buf |-> 0, stk |-> << >>, live |-> << >>]
\* r is moved into the new resource q
Move(r, q) ==
  /\ call = None /\ r \in DOMAIN res /\ q \notin DOMAIN res
  /\ res' = (q :> res[r]) @@ [res EXCEPT ![r] = Empty] /\ UNCHANGED <<size, call>>
\* destruction, or being assigned to: every chunk has been given back
Destroyed(remains) ==
  LET x == res[call.r] IN
  /\ call.what = "destroy" /\ call.gone = x.own \ {x.buf}
  /\ res' = IF remains THEN [res EXCEPT ![call.r] = Empty] ELSE [k \in DOMAIN res \ {call.r} |-> res[k]]
  /\ call' = None /\ UNCHANGED size
\* assignment after what was there is gone
Assigned(r, q) ==
  /\ call = None /\ {r, q} \subseteq DOMAIN res /\ r # q /\ res[q] = Empty
  /\ res' = [res EXCEPT ![q] = res[r], ![r] = Empty] /\ UNCHANGED <<size, call>>
\* contents of all blocks, looked at without giving them back
Look(r, intact) == intact /\ UNCHANGED svars
Done == call = None /\ res = << >> /\ UNCHANGED svars
=============================================================================
