------------------------------ MODULE MCStackRes ------------------------------
(***************************************************************************)
(* The algorithm of dd::stack_resource - bump pointer in the current       *)
(* chunk, the state of the previous chunk kept in the chunk, a free list   *)
(* searched first fit - refines StackRes.                                  *)
(* Region 1 is the given buffer (of Buf units, 0: none), others come from  *)
(* the system.  Region 0 stands for the empty buffer.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Buf, Lens, MaxChunks, MaxSteps
VARIABLES cur, m, prev, free, live, size, call, pc, steps
vars == <<cur, m, prev, free, live, size, call, pc, steps>>
Base == IF Buf = 0 THEN 0 ELSE 1
Sz(c) == IF c = 0 THEN 0 ELSE size[c]
Chunks == DOMAIN size \ {Base}
NoCall == [r |-> 0, what |-> "none", n |-> 0, fresh |-> {}, gone |-> {}]

Init == /\ cur = Base /\ m = 0 /\ prev = << >> /\ free = << >> /\ live = << >>
        /\ size = IF Buf = 0 THEN << >> ELSE (1 :> Buf)
        /\ call = NoCall /\ pc = "idle" /\ steps = 0

AllocBegin == /\ pc = "idle" /\ steps < MaxSteps /\ steps' = steps + 1
              /\ \E n \in Lens : call' = [NoCall EXCEPT !.r = 1, !.what = "alloc", !.n = n]
              /\ pc' = "alloc" /\ UNCHANGED <<cur, m, prev, free, live, size>>
Take(c, o) == live' = Append(live, [b |-> c, o |-> o, n |-> call.n])
FirstFit == LET s == {i \in DOMAIN free : Sz(free[i]) >= call.n} IN
            IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : i <= j
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Enter(c) == /\ prev' = (c :> <<cur, m>>) @@ prev /\ cur' = c /\ m' = call.n /\ Take(c, 0)
AllocHere == /\ pc = "alloc" /\ Sz(cur) - m >= call.n
             /\ Take(cur, m) /\ m' = m + call.n /\ call' = NoCall /\ pc' = "idle"
             /\ UNCHANGED <<cur, prev, free, size, steps>>
AllocFree == /\ pc = "alloc" /\ Sz(cur) - m < call.n /\ FirstFit # 0
             /\ Enter(free[FirstFit]) /\ free' = Without(free, FirstFit) /\ call' = NoCall /\ pc' = "idle"
             /\ UNCHANGED <<size, steps>>
AllocSys == /\ pc = "alloc" /\ Sz(cur) - m < call.n /\ FirstFit = 0 /\ Cardinality(Chunks) < MaxChunks
            /\ LET c == 2 + Cardinality(Chunks) IN
               /\ size' = (c :> (call.n + Sz(cur) + Buf) * 2) @@ size /\ call' = [call EXCEPT !.fresh = {c}]
            /\ pc' = "place" /\ UNCHANGED <<cur, m, prev, free, live, steps>>
Place == /\ pc = "place" /\ Enter(CHOOSE c \in call.fresh : TRUE) /\ call' = NoCall /\ pc' = "idle"
         /\ UNCHANGED <<free, size, steps>>
NoMemory == /\ pc = "alloc" /\ Sz(cur) - m < call.n /\ FirstFit = 0 /\ call' = NoCall /\ pc' = "idle"
            /\ UNCHANGED <<cur, m, prev, free, live, size, steps>>
\* dropping chunks until the block lies in the current one
RECURSIVE DropUntil(_, _, _, _)
DropUntil(p, c, mm, fr) == IF p.b = c /\ p.o = mm - p.n THEN <<c, mm, fr, TRUE>>
                           ELSE IF c = Base \/ mm # 0 THEN <<c, mm, fr, FALSE>>
                           ELSE DropUntil(p, prev[c][1], prev[c][2], <<c>> \o fr)
Dealloc == /\ pc = "idle" /\ live # << >> /\ steps < MaxSteps /\ steps' = steps + 1
           /\ LET p == live[Len(live)]
                  d == DropUntil(p, cur, m, free) IN
              /\ Assert(d[4], "block not found")
              /\ cur' = d[1] /\ m' = d[2] - p.n /\ free' = d[3]
           /\ live' = SubSeq(live, 1, Len(live) - 1) /\ UNCHANGED <<prev, size, call, pc>>
RECURSIVE DropAll(_, _)
DropAll(c, fr) == IF c = Base THEN fr ELSE DropAll(prev[c][1], <<c>> \o fr)
Reuse == /\ pc = "idle" /\ steps < MaxSteps /\ steps' = steps + 1
         /\ cur' = Base /\ m' = 0 /\ free' = DropAll(cur, free) /\ live' = << >>
         /\ UNCHANGED <<prev, size, call, pc>>
Next == AllocBegin \/ AllocHere \/ AllocFree \/ AllocSys \/ Place \/ NoMemory \/ Dealloc \/ Reuse
Spec == Init /\ [][Next]_vars

RECURSIVE Chain(_)
Chain(c) == IF c = Base THEN IF Base = 0 THEN << >> ELSE <<Base>> ELSE Append(Chain(prev[c][1]), c)
Abs == INSTANCE StackRes WITH Align <- 1, Slack <- 0, size <- size, call <- call,
         res <- (1 :> [own |-> IF pc = "place" THEN DOMAIN size \ call.fresh ELSE DOMAIN size, buf |-> Base,
                       stk |-> Chain(cur), live |-> live])
AbsNext == \/ \E n \in Lens : Abs!Begin(1, "alloc", n)
           \/ \E c \in DOMAIN size' \ DOMAIN size : Abs!SysNew(c, size'[c])
           \/ live' # << >> /\ Abs!Allocated(live'[Len(live')].b, live'[Len(live')].o, 0)
           \/ Abs!Failed \/ Abs!Dealloc(1, TRUE) \/ Abs!Reuse(1, TRUE)
Refines == [][AbsNext]_(<<live, size, call, cur>>)
Disjoint == \A i, j \in DOMAIN live : i # j => Abs!Apart(live[i], live[j])
Inside == \A i \in DOMAIN live : live[i].o + live[i].n <= Sz(live[i].b)
\* every chunk is on the stack or in the free list, once
Accounted == LET s == Chain(cur) \o free IN
             pc # "place" => {s[i] : i \in DOMAIN s} = DOMAIN size /\ Len(s) = Cardinality(DOMAIN size)
=============================================================================
