-------------------------------- MODULE MCGen --------------------------------
(* Any program of generators, run together with the algorithm of the library: *)
(* pointers from the innermost coroutine to the outermost (rt), from that to  *)
(* the innermost (cw), and from each to the one which yields its elements     *)
(* (ow).  The algorithm always continues the coroutine the specification      *)
(* says.                                                                      *)
EXTENDS Gen
CONSTANTS N, NObj, NYield, NThrow
VARIABLES rt, cw, ow, nc, ny, nx
mvars == <<gvars, rt, cw, ow, nc, ny, nx>>
O == 1..NObj
Cons == 1000
\* the coroutine that runs now, 0 if the consumer does
Running == {c \in DOMAIN cs : cs[c] = "run"}
ConsumerRuns == \A o \in DOMAIN busy : busy[o] = 0
Alg == UNCHANGED <<rt, cw, ow>>
Cnt == UNCHANGED <<nc, ny, nx>>
MInit == GInit /\ rt = << >> /\ cw = << >> /\ ow = << >> /\ nc = 0 /\ ny = 0 /\ nx = 0
Make(o) ==
  /\ nc < N /\ (\A p \in 1..(o - 1) : Dom(root, p))
  /\ IF Dom(root, o)
     THEN /\ root[o] = 0 /\ busy[o] = 0 /\ LET c == nc + 1 IN
             /\ root' = [root EXCEPT ![o] = c] /\ cs' = Put(cs, c, "new") /\ kid' = Put(kid, c, None)
             /\ par' = Put(par, c, 0) /\ val' = Put(val, c, {})
             /\ UNCHANGED <<cur, busy, res, exc, go, freed, doomed, isch, dying>>
     ELSE MakeObj(o, nc + 1)
  /\ nc' = nc + 1 /\ rt' = Put(rt, nc + 1, nc + 1) /\ cw' = Put(cw, nc + 1, nc + 1) /\ ow' = Put(ow, nc + 1, 0)
  /\ UNCHANGED <<ny, nx>>
Active == IF Running # {} THEN Running ELSE IF ConsumerRuns THEN {Cons} ELSE {}
\* the algorithm of the library
Attach(c, d) == LET w == cw[d] IN
  /\ rt' = [rt EXCEPT ![w] = rt[c]] /\ ow' = [ow EXCEPT ![d] = c] /\ cw' = [cw EXCEPT ![rt[c]] = w]
Skip(c) == IF rt[c] # c
           THEN rt' = [rt EXCEPT ![ow[c]] = rt[c]] /\ cw' = [cw EXCEPT ![rt[c]] = ow[c]] /\ UNCHANGED ow
           ELSE Alg
Elem(c, o) ==
  /\ Dom(root, o) /\ root[o] # TopOf(c)
  /\ ElemBegin(c, o, FALSE, FALSE)
  /\ IF Empty(o) THEN Alg ELSE Attach(c, root[o])
NoElem(c, o) == FALSE
MNext ==
  \/ \E o \in O : Active # {} /\ Make(o)
  \/ \E by \in Active, o \in O : Dom(root, o) /\ StepBegin(o, by, FALSE) /\ Alg /\ Cnt
  \/ \E o \in DOMAIN root : \E v \in {0, 1} : \E kind \in {"val", "end", "exc"} :
        busy[o] # 0 /\ StepEnd(o, busy[o], kind, v) /\ Alg /\ Cnt
  \/ \E c \in go : Alg /\ Cnt /\ (BodyBegin(c) \/ YieldEnd(c, 0, FALSE) \/ ElemEnd(c))
  \/ \E c \in Running : ny < NYield /\ Yield(c, 0, "tmp") /\ ny' = ny + 1 /\ Alg /\ UNCHANGED <<nc, nx>>
  \/ \E c \in Running, o \in O : Elem(c, o) /\ Cnt
  \/ \E c \in Running : BodyEnd(c) /\ Skip(c) /\ Cnt
  \/ \E c \in Running : nx < NThrow /\ BodyThrow(c, 1) /\ Skip(c) /\ nx' = nx + 1 /\ UNCHANGED <<nc, ny>>
  \* frames that nobody can name any more
  \/ \E c \in doomed : par[c] = 0 /\ ~(\E o \in DOMAIN root : root[o] = c) /\ Free(c) /\ Alg /\ Cnt
  \/ \E o, p \in O : o < p /\ Dom(root, p) /\ Active # {} /\ Swap(o, p) /\ Alg /\ Cnt
  \/ \E o \in O : Dom(root, o) /\ Active # {} /\ root[o] # 0 /\ Idle(o) /\ Alg /\ Cnt
                  /\ doomed' = doomed \cup Sub(root[o]) /\ root' = [root EXCEPT ![o] = 0] /\ cur' = [cur EXCEPT ![o] = NoCur]
                  /\ UNCHANGED <<busy, res, exc, cs, kid, par, val, go, freed, isch, dying>>
MSpec == MInit /\ [][MNext]_mvars
-----------------------------------------------------------------------------
Live(o) == root[o] # 0 /\ ~Over(root[o])
\* the algorithm continues the innermost coroutine and knows the outermost
Refines == /\ \A o \in DOMAIN root : Live(o) => LET r == root[o] IN
                 /\ cw[r] = Leaf(r)
                 /\ rt[Leaf(r)] = r
                 /\ \A c \in Sub(r) : c # r => ow[c] = par[c]
           /\ \A c \in DOMAIN cs : cs[c] = "run" => HasObject(c) /\ rt[c] = TopOf(c) /\ cw[rt[c]] = c
\* every coroutine has exactly one owner
Owned == /\ \A c, d \in DOMAIN kid : kid[c].k = "co" /\ kid[d].k = "co" /\ kid[c].c = kid[d].c => c = d
         /\ \A c \in DOMAIN kid : kid[c].k = "co" => par[kid[c].c] = c
         /\ \A c \in DOMAIN par : par[c] # 0 => kid[par[c]] = [k |-> "co", c |-> c, rng |-> FALSE, keep |-> FALSE]
         /\ \A c \in DOMAIN par : par[c] # 0 => ~\E o \in DOMAIN root : root[o] = c
\* at most one coroutine runs; a step never gets stuck
Single == Cardinality(Running) <= 1 /\ Cardinality(go) <= 1
Progress == (~ConsumerRuns) => (Running # {} \/ go # {} \/ \E o \in DOMAIN res : res[o] # None)
NoneLost == \A c \in DOMAIN cs : c \notin freed /\ c \notin doomed =>
               \E o \in DOMAIN root : root[o] # 0 /\ c \in Sub(root[o])
=============================================================================
