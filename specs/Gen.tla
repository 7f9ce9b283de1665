--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Generators and channels: objects that own a coroutine, which yields     *)
(* values, or all elements of something else - a coroutine of its kind     *)
(* (which it then owns), or a range (values, or another iterable object).  *)
(* A step of an object runs its innermost unfinished coroutine up to the   *)
(* next value, the end, or an exception.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES root,  \* object -> its coroutine, 0 if none
          cur,   \* object -> its current element: [has, v, al]; al: the coroutine whose variable it is, or 0
          busy,  \* object -> who is making a step, or 0
          res,   \* object -> outcome of the step in progress
          exc,   \* object -> exception it has not handed out yet, or 0 (channels)
          cs,    \* coroutine -> "new", "run", "hop", "yield", "elem", "step", "done", "dead"
          kid,   \* coroutine -> what it yields the elements of
          par,   \* coroutine -> the one that yields its elements, or 0
          val,   \* coroutine -> what the variable it yielded may hold now
          go,    \* coroutines that may continue now
          freed, doomed, \* frames: destroyed; may be destroyed
          isch,  \* object -> is it a channel (known when it makes steps)
          dying  \* object -> frames that must be gone when its destruction ends
gvars == <<root, cur, busy, res, exc, cs, kid, par, val, go, freed, doomed, isch, dying>>
None == [k |-> "none", rng |-> FALSE, keep |-> FALSE]
NoCur == [has |-> FALSE, v |-> 0, al |-> 0, f |-> "tmp"]
GInit == /\ root = << >> /\ cur = << >> /\ busy = << >> /\ res = << >> /\ exc = << >> /\ cs = << >> /\ kid = << >>
         /\ par = << >> /\ val = << >> /\ go = {} /\ freed = {} /\ doomed = {} /\ isch = << >> /\ dying = << >>
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Dom(f, x) == x \in DOMAIN f
Over(c) == cs[c] \in {"done", "dead"}
Empty(o) == root[o] = 0 \/ Over(root[o])
RECURSIVE Leaf(_), SubIn(_, _), TopOf(_), Anc(_)
Leaf(c) == IF kid[c].k = "co" THEN Leaf(kid[c].c) ELSE c
\* c and what it owns the elements of
SubIn(k, c) == IF c = 0 THEN {} ELSE {c} \cup (IF k[c].k = "co" /\ ~k[c].keep THEN SubIn(k, k[c].c) ELSE {})
Sub(c) == SubIn(kid, c)
Anc(c) == IF par[c] = 0 THEN <<c>> ELSE Append(Anc(par[c]), c)   \* from the outermost down to c
TopOf(c) == Anc(c)[1]
Object(c) == CHOOSE o \in DOMAIN root : root[o] = TopOf(c)
HasObject(c) == \E o \in DOMAIN root : root[o] = TopOf(c)
\* a range between the object and c
ThroughRange(c) == \E i \in 1..Len(Anc(c)) : LET a == Anc(c)[i] IN par[a] # 0 /\ kid[par[a]].rng

MakeObj(o, c) ==
  /\ ~Dom(root, o) /\ ~Dom(cs, c)
  /\ root' = Put(root, o, c) /\ cs' = Put(cs, c, "new") /\ kid' = Put(kid, c, None) /\ par' = Put(par, c, 0)
  /\ val' = Put(val, c, {}) /\ cur' = Put(cur, o, NoCur) /\ busy' = Put(busy, o, 0) /\ exc' = Put(exc, o, 0)
  /\ res' = Put(res, o, None)
  /\ UNCHANGED <<go, freed, doomed, dying, isch>>
NoneObj(o) ==
  /\ ~Dom(root, o)
  /\ root' = Put(root, o, 0) /\ cur' = Put(cur, o, NoCur) /\ busy' = Put(busy, o, 0) /\ exc' = Put(exc, o, 0)
  /\ res' = Put(res, o, None)
  /\ UNCHANGED <<cs, kid, par, val, go, freed, doomed, dying, isch>>

Idle(o) == Dom(root, o) /\ busy[o] = 0
Runs(c) == Dom(cs, c) /\ cs[c] = "run" /\ c \notin freed
\* the coroutine that makes a step waits for it
Waits(by) == IF Dom(cs, by) THEN Put(cs, by, "step") ELSE cs
MayWait(by) == Dom(cs, by) => Runs(by)

\* the innermost coroutine c continues; if it yields the values of a range, that is advanced instead.
\* Gives the new value of <<go, kid, result>>.
Advance(c) ==
  IF kid[c].k = "vals"
  THEN IF kid[c].l = << >> THEN [go |-> go \cup {c}, kid |-> Put(kid, c, None), res |-> None]
       ELSE IF Head(kid[c].l) < 0
       THEN [go |-> go, kid |-> Put(kid, c, None), res |-> [k |-> "exc", v |-> 0 - Head(kid[c].l)]]
       ELSE [go |-> go, kid |-> [kid EXCEPT ![c].l = Tail(@)], res |-> [k |-> "val", v |-> Head(kid[c].l), al |-> 0, f |-> "tmp"]]
  ELSE [go |-> go \cup {c}, kid |-> kid, res |-> None]

\* an exception passes the chain a of coroutines (outermost first; k: what they yield the elements of).
\* It ends every range on its way, and the last coroutine of a if that failed itself.
Lost(a, k, last) == {i \in 2..Len(a) : k[a[i - 1]].rng \/ (last /\ i = Len(a))}
Cut(a, k, lost) == [x \in DOMAIN k |-> IF \E i \in lost : a[i - 1] = x THEN None ELSE k[x]]
CutPar(a, p, lost) == [x \in DOMAIN p |-> IF \E i \in lost : a[i] = x THEN 0 ELSE p[x]]
Abandoned(a, k, lost) == UNION {IF k[a[i - 1]].keep THEN {} ELSE SubIn(k, a[i]) : i \in lost}
RECURSIVE Path(_)
Path(c) == IF kid[c].k = "co" THEN <<c>> \o Path(kid[c].c) ELSE <<c>>   \* from c to the innermost
Fails(r) == r # None /\ r.k = "exc"

StepBegin(o, by, chan) ==
  /\ isch' = Put(isch, o, chan)
  /\ Idle(o) /\ MayWait(by) /\ exc[o] = 0
  /\ busy' = [busy EXCEPT ![o] = by] /\ cur' = [cur EXCEPT ![o] = NoCur] /\ cs' = Waits(by)
  /\ IF Empty(o) THEN res' = [res EXCEPT ![o] = [k |-> "end"]] /\ UNCHANGED <<go, kid, par, doomed>>
     ELSE LET a == Advance(Leaf(root[o]))
              p == Path(root[o])
              lost == IF Fails(a.res) THEN Lost(p, kid, FALSE) ELSE {} IN
          /\ go' = a.go /\ res' = [res EXCEPT ![o] = a.res]
          /\ kid' = Cut(p, a.kid, lost) /\ par' = CutPar(p, par, lost) /\ doomed' = doomed \cup Abandoned(p, kid, lost)
  /\ UNCHANGED <<root, exc, val, freed, dying>>
\* how an exception is told: by the step itself, or, for channels, by the end of the iteration
StepEnd(o, by, kind, v) == LET chan == isch[o] IN
  /\ Dom(root, o) /\ busy[o] = by /\ res[o] # None
  /\ CASE res[o].k = "val" -> kind = "val" /\ v = res[o].v
       [] res[o].k = "end" -> kind = "end"
       [] res[o].k = "exc" -> IF chan THEN kind = "end" ELSE kind = "exc" /\ v = res[o].v
  /\ cur' = [cur EXCEPT ![o] = IF res[o].k = "val" THEN [has |-> TRUE, v |-> v, al |-> res[o].al, f |-> res[o].f] ELSE NoCur]
  /\ exc' = [exc EXCEPT ![o] = IF res[o].k = "exc" /\ chan THEN res[o].v ELSE 0]
  /\ busy' = [busy EXCEPT ![o] = 0] /\ res' = [res EXCEPT ![o] = None]
  /\ cs' = IF Dom(cs, by) THEN Put(cs, by, "run") ELSE cs
  /\ UNCHANGED <<root, kid, par, val, go, freed, doomed, dying, isch>>
\* the iteration ends: a pending exception is told, once
SessEnd(o, x) == Dom(root, o) /\ exc[o] = x /\ exc' = [exc EXCEPT ![o] = 0]
                 /\ UNCHANGED <<root, cur, busy, res, cs, kid, par, val, go, freed, doomed, dying, isch>>
\* is the element the very object that was yielded?
Same(o, r) == /\ Dom(cur, o) /\ cur[o].has
              /\ cur[o].f = "ref" => r
              /\ cur[o].f = "copy" => ~r
              /\ UNCHANGED gvars
Peek(o, v) == Dom(cur, o) /\ cur[o].has /\ cur[o].v = v /\ UNCHANGED gvars
\* the consumer changes the element
Write(o, v) ==
  /\ Dom(cur, o) /\ cur[o].has
  /\ cur' = [cur EXCEPT ![o].v = v]
  /\ LET c == cur[o].al IN
     val' = IF c = 0 THEN val
            ELSE [val EXCEPT ![c] = IF cur[o].f = "ref" THEN {v} ELSE IF cur[o].f = "any" THEN @ \cup {v} ELSE @]
  /\ UNCHANGED <<root, busy, res, exc, cs, kid, par, go, freed, doomed, dying, isch>>
AtEnd(o, r) == Idle(o) /\ (r <=> ~cur[o].has) /\ UNCHANGED gvars
IsEmpty(o, r) == Idle(o) /\ (r <=> Empty(o)) /\ UNCHANGED gvars
Equal(o, p, r) == Idle(o) /\ Idle(p) /\ (r <=> (o = p \/ (Empty(o) /\ Empty(p)))) /\ UNCHANGED gvars

BodyBegin(c) == /\ c \in go /\ cs[c] = "new" /\ c \notin freed /\ go' = go \ {c} /\ cs' = Put(cs, c, "run")
                /\ UNCHANGED <<root, cur, busy, res, exc, kid, par, val, freed, doomed, dying, isch>>
HopBegin(c) == Runs(c) /\ cs' = Put(cs, c, "hop") /\ UNCHANGED <<root, cur, busy, res, exc, kid, par, val, go, freed, doomed, dying, isch>>
HopEnd(c) == /\ Dom(cs, c) /\ cs[c] = "hop" /\ c \notin freed /\ cs' = Put(cs, c, "run")
             /\ UNCHANGED <<root, cur, busy, res, exc, kid, par, val, go, freed, doomed, dying, isch>>
Yield(c, v, form) ==
  /\ Runs(c) /\ HasObject(c)
  /\ LET o == Object(c)
         f == IF form # "tmp" /\ ThroughRange(c) THEN "any" ELSE form IN
     /\ busy[o] # 0 /\ res[o] = None
     /\ res' = [res EXCEPT ![o] = [k |-> "val", v |-> v, al |-> c, f |-> f]]
  /\ cs' = Put(cs, c, "yield") /\ val' = Put(val, c, {v})
  /\ UNCHANGED <<root, cur, busy, exc, kid, par, go, freed, doomed, dying, isch>>
YieldEnd(c, v, checked) ==
  /\ c \in go /\ cs[c] = "yield" /\ c \notin freed
  /\ checked => v \in val[c]
  /\ go' = go \ {c} /\ cs' = Put(cs, c, "run")
  /\ UNCHANGED <<root, cur, busy, res, exc, kid, par, val, freed, doomed, dying, isch>>
\* all elements of object o
ElemBegin(c, o, rng, keep) ==
  /\ Runs(c) /\ Idle(o) /\ HasObject(c) /\ exc[o] = 0
  /\ LET d == root[o]
         top == Object(c)
         k2 == Put(kid, c, [k |-> "co", c |-> d, rng |-> rng, keep |-> keep]) IN
     /\ busy[top] # 0 /\ res[top] = None
     /\ IF Empty(o)
        THEN /\ go' = go \cup {c} /\ UNCHANGED <<kid, par, res>>
             /\ doomed' = doomed \cup (IF d # 0 /\ ~keep THEN Sub(d) ELSE {})
        ELSE LET a == Advance(Leaf(d))
                 p == Anc(c) \o Path(d)
                 lost == IF Fails(a.res) THEN Lost(p, k2, FALSE) ELSE {} IN
             /\ go' = a.go /\ res' = [res EXCEPT ![top] = a.res]
             /\ kid' = Cut(p, Put(a.kid, c, k2[c]), lost) /\ par' = CutPar(p, Put(par, d, c), lost)
             /\ doomed' = doomed \cup Abandoned(p, k2, lost)
     /\ root' = IF keep THEN root ELSE Put(root, o, 0)
     /\ cur' = [cur EXCEPT ![o] = NoCur]
  /\ cs' = Put(cs, c, "elem")
  /\ UNCHANGED <<busy, exc, val, freed, dying, isch>>
\* all elements of a range of values; a negative one stands for an exception
ElemVals(c, l) ==
  /\ Runs(c) /\ HasObject(c)
  /\ LET top == Object(c) IN
     /\ busy[top] # 0 /\ res[top] = None
     /\ IF l = << >> THEN go' = go \cup {c} /\ UNCHANGED <<kid, res, par, doomed, isch>>
        ELSE IF Head(l) < 0
        THEN LET p == Anc(c)
                 lost == Lost(p, kid, FALSE) IN
             /\ res' = [res EXCEPT ![top] = [k |-> "exc", v |-> 0 - Head(l)]] /\ UNCHANGED go
             /\ kid' = Cut(p, kid, lost) /\ par' = CutPar(p, par, lost) /\ doomed' = doomed \cup Abandoned(p, kid, lost)
        ELSE /\ UNCHANGED <<par, doomed>>
             /\ kid' = Put(kid, c, [k |-> "vals", l |-> Tail(l), rng |-> TRUE, keep |-> FALSE])
             /\ res' = [res EXCEPT ![top] = [k |-> "val", v |-> Head(l), al |-> 0, f |-> "tmp"]] /\ UNCHANGED go
  /\ cs' = Put(cs, c, "elem")
  /\ UNCHANGED <<root, cur, busy, exc, val, freed, dying, isch>>
ElemEnd(c) ==
  /\ c \in go /\ cs[c] = "elem" /\ kid[c] = None /\ c \notin freed
  /\ go' = go \ {c} /\ cs' = Put(cs, c, "run")
  /\ UNCHANGED <<root, cur, busy, res, exc, kid, par, val, freed, doomed, dying, isch>>

BodyEnd(c) ==
  /\ Runs(c)
  /\ cs' = Put(cs, c, "done") /\ doomed' = doomed \cup {c}
  /\ IF par[c] # 0
     THEN /\ kid' = Put(kid, par[c], None) /\ par' = Put(par, c, 0) /\ go' = go \cup {par[c]} /\ UNCHANGED res
     ELSE /\ UNCHANGED <<kid, par, go>>
          /\ res' = IF HasObject(c) THEN [res EXCEPT ![Object(c)] = [k |-> "end"]] ELSE res
  /\ UNCHANGED <<root, cur, busy, exc, val, freed, dying, isch>>
\* an exception leaves c.  It ends every range it passes through, from the outermost on
BodyThrow(c, e) ==
  /\ Runs(c) /\ HasObject(c)
  /\ LET o == Object(c)
         a == Anc(c)
         lost == Lost(a, kid, TRUE)
     IN /\ busy[o] # 0 /\ res[o] = None
        /\ res' = [res EXCEPT ![o] = [k |-> "exc", v |-> e]]
        /\ kid' = Cut(a, kid, lost) /\ par' = CutPar(a, par, lost)
        /\ doomed' = doomed \cup {c} \cup Abandoned(a, kid, lost)
  /\ cs' = Put(cs, c, "dead")
  /\ UNCHANGED <<root, cur, busy, exc, val, go, freed, dying, isch>>

\* jobs have no object and run at once: they free themselves, or are destroyed where they wait
Job(c) == /\ ~Dom(cs, c)
          /\ cs' = Put(cs, c, "job") /\ kid' = Put(kid, c, None) /\ par' = Put(par, c, 0) /\ val' = Put(val, c, {})
          /\ UNCHANGED <<root, cur, busy, res, exc, go, freed, doomed, isch, dying>>
JobBegin(c) == /\ Dom(cs, c) /\ cs[c] = "job" /\ cs' = Put(cs, c, "run")
               /\ UNCHANGED <<root, cur, busy, res, exc, kid, par, val, go, freed, doomed, isch, dying>>
Kill(c) == /\ Dom(cs, c) /\ cs[c] = "hop" /\ c \notin freed /\ ~HasObject(c)
           /\ cs' = Put(cs, c, "dead") /\ doomed' = doomed \cup {c}
           /\ UNCHANGED <<root, cur, busy, res, exc, kid, par, val, go, freed, isch, dying>>
Killed(c) == c \in freed /\ UNCHANGED gvars

Free(c) ==
  /\ Dom(cs, c) /\ c \notin freed /\ c \in doomed /\ cs[c] \notin {"run", "hop", "step"} /\ c \notin go
  /\ freed' = freed \cup {c}
  /\ UNCHANGED <<root, cur, busy, res, exc, cs, kid, par, val, go, doomed, dying, isch>>

\* ownership
Move(o, p) ==
  /\ Idle(o) /\ ~Dom(root, p)
  /\ root' = Put(Put(root, p, root[o]), o, 0) /\ cur' = Put(Put(cur, p, cur[o]), o, NoCur)
  /\ exc' = Put(Put(exc, p, exc[o]), o, 0) /\ busy' = Put(busy, p, 0) /\ res' = Put(res, p, None)
  /\ UNCHANGED <<cs, kid, par, val, go, freed, doomed, dying, isch>>
Swap(o, p) ==
  /\ Idle(o) /\ Idle(p)
  /\ root' = [root EXCEPT ![o] = root[p], ![p] = root[o]] /\ cur' = [cur EXCEPT ![o] = cur[p], ![p] = cur[o]]
  /\ exc' = [exc EXCEPT ![o] = exc[p], ![p] = exc[o]]
  /\ UNCHANGED <<busy, res, cs, kid, par, val, go, freed, doomed, dying, isch>>
\* p = move(o): what p had goes, at once or with o
AssignBegin(o, p) ==
  /\ Idle(o) /\ Idle(p) /\ o # p
  /\ doomed' = doomed \cup Sub(root[p])
  /\ UNCHANGED <<root, cur, busy, res, exc, cs, kid, par, val, go, freed, dying, isch>>
AssignEnd(o, p) ==
  /\ IF root[p] # 0 /\ root[p] \in freed
     THEN /\ Sub(root[p]) \subseteq freed
          /\ root' = [root EXCEPT ![p] = root[o], ![o] = 0] /\ cur' = [cur EXCEPT ![p] = cur[o], ![o] = NoCur]
          /\ exc' = [exc EXCEPT ![p] = exc[o], ![o] = 0]
     ELSE /\ root' = [root EXCEPT ![o] = root[p], ![p] = root[o]] /\ cur' = [cur EXCEPT ![o] = cur[p], ![p] = cur[o]]
          /\ exc' = [exc EXCEPT ![o] = exc[p], ![p] = exc[o]]
  /\ doomed' = doomed \ {c \in Sub(root[p]) : ~Over(c)}
  /\ UNCHANGED <<busy, res, cs, kid, par, val, go, freed, dying, isch>>
ClearBegin(o) ==
  /\ Idle(o)
  /\ dying' = Put(dying, o, Sub(root[o])) /\ doomed' = doomed \cup Sub(root[o])
  /\ UNCHANGED <<root, cur, busy, res, exc, cs, kid, par, val, go, freed, isch>>
ClearEnd(o) ==
  /\ Dom(dying, o) /\ dying[o] \subseteq freed
  /\ root' = [root EXCEPT ![o] = 0] /\ cur' = [cur EXCEPT ![o] = NoCur] /\ dying' = Del(dying, o)
  /\ exc' = [exc EXCEPT ![o] = 0]
  /\ UNCHANGED <<busy, res, cs, kid, par, val, go, freed, doomed, isch>>
\* a released handle is held under the name h
Release(o, h) == /\ Idle(o) /\ ~Dom(root, h)
                 /\ root' = Put(Put(root, h, root[o]), o, 0) /\ cur' = Put(Put(cur, h, NoCur), o, NoCur)
                 /\ exc' = Put(exc, h, 0) /\ busy' = Put(busy, h, 0) /\ res' = Put(res, h, None)
                 /\ UNCHANGED <<cs, kid, par, val, go, freed, doomed, dying, isch>>
ResetEnd(o, h) ==
  /\ Dom(dying, o) /\ dying[o] \subseteq freed
  /\ root' = [root EXCEPT ![o] = root[h], ![h] = 0] /\ cur' = [cur EXCEPT ![o] = NoCur] /\ dying' = Del(dying, o)
  /\ UNCHANGED <<exc, busy, res, cs, kid, par, val, go, freed, doomed, isch>>

EndOk == /\ \A c \in DOMAIN cs : c \in freed
         /\ \A o \in DOMAIN busy : busy[o] = 0
-----------------------------------------------------------------------------
GInv == /\ \A o, p \in DOMAIN root : root[o] # 0 /\ root[o] = root[p] => o = p
        /\ \A c \in go : c \notin freed /\ kid[c] = None
        /\ Cardinality(go) <= Cardinality({o \in DOMAIN busy : busy[o] # 0})
        /\ \A c \in freed : cs[c] \notin {"run", "hop", "step"}
=============================================================================
