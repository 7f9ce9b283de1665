-------------------------------- MODULE Task --------------------------------
(***************************************************************************)
(* dd::task, dd::when_all and dd::when_any.  Tasks are numbered; a group   *)
(* (a when_all or when_any in progress) is a task too, numbered from 500.  *)
(* The context hooks (owner, start, end) are part of the state when the    *)
(* tasks have a context that tells of them (hooks).                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES st,      \* task -> "new", "asked", "running", "ended"
          why,     \* task -> who asked: "none", "await", "get", "sad", "keep", "loose", "all", "any"
          by,      \* task -> the waiter or group that asked
          out,     \* ended task -> [kind, v]
          hk,      \* task -> [o, s, e]: number of owner, start and end calls
          waits,   \* waiter -> what it waits for: [k] or [g]
          grp,     \* group -> [ks, all, pre]; pre: those which had ended before
          freed, dropping,
          settled, \* set of <<j, i>>: j had surely told its waiter before the body of i ended
          imm      \* thread -> waiter which has to continue at once
kvars == <<st, why, by, out, hk, waits, grp, freed, dropping, settled, imm>>
KInit == /\ st = << >> /\ why = << >> /\ by = << >> /\ out = << >> /\ hk = << >> /\ waits = << >> /\ grp = << >>
         /\ freed = {} /\ dropping = {} /\ settled = {} /\ imm = << >>
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Dom(f, x) == x \in DOMAIN f
Range(s) == {s[i] : i \in 1..Len(s)}
Ended(k) == Dom(st, k) /\ st[k] = "ended"
NoHooks == [o |-> 0, s |-> 0, e |-> 0]
Child(k) == why[k] \in {"all", "any"}

Make(k) ==
  /\ ~Dom(st, k)
  /\ st' = Put(st, k, "new") /\ why' = Put(why, k, "none") /\ by' = Put(by, k, 0) /\ hk' = Put(hk, k, NoHooks)
  /\ UNCHANGED <<out, waits, grp, freed, dropping, settled, imm>>

\* a waiter which is a body must be running and not waiting for something else
CanWait(w) == ~Dom(waits, w) /\ (Dom(st, w) => st[w] = "running")
Usable(k) == Dom(st, k) /\ k \notin freed /\ k \notin dropping
AwaitBegin(w, k, t) ==
  /\ CanWait(w) /\ Usable(k) /\ st[k] \in {"new", "ended"}
  /\ waits' = Put(waits, w, k)
  /\ IF st[k] = "new"
     THEN /\ st' = Put(st, k, "asked") /\ why' = Put(why, k, "await") /\ by' = Put(by, k, w) /\ imm' = imm
     ELSE /\ imm' = Put(imm, t, w) /\ UNCHANGED <<st, why, by>>
  /\ UNCHANGED <<out, hk, grp, freed, dropping, settled>>
Told(k) == hk[k].e = 1
\* hooks: TRUE when the hooks are observed
AwaitEnd(w, k, kind, v, t, hooks) ==
  /\ Dom(waits, w) /\ waits[w] = k /\ Ended(k) /\ (k \notin freed \/ why[k] = "get")
  /\ kind = out[k].kind /\ v = out[k].v /\ (hooks => Told(k))
  /\ waits' = Del(waits, w) /\ imm' = Del(imm, t)
  /\ UNCHANGED <<st, why, by, out, hk, grp, freed, dropping, settled>>
WaitEnd(w, k, t, hooks) == Ended(k) /\ AwaitEnd(w, k, out[k].kind, out[k].v, t, hooks)
GetBegin(w, k, t) ==
  /\ ~Dom(waits, w) /\ Usable(k) /\ st[k] \in {"new", "ended"}
  /\ waits' = Put(waits, w, k)
  /\ IF st[k] = "new"
     THEN st' = Put(st, k, "asked") /\ why' = Put(why, k, "get") /\ by' = Put(by, k, w) /\ imm' = imm
     ELSE imm' = Put(imm, t, w) /\ UNCHANGED <<st, why, by>>
  /\ UNCHANGED <<out, hk, grp, freed, dropping, settled>>

\* start_and_detach
SadBegin(k, stop) ==
  /\ Usable(k) /\ st[k] \in {"new", "ended"} /\ why[k] \in {"none", "await"}
  /\ st' = (IF st[k] = "new" THEN Put(st, k, "asked") ELSE st) /\ why' = Put(why, k, IF stop THEN "keep" ELSE "sad")
  /\ UNCHANGED <<by, out, hk, waits, grp, freed, dropping, settled, imm>>
SadEnd(k, empty) == Dom(st, k) /\ st[k] \in {"running", "ended"} /\ empty /\ UNCHANGED kvars
Loose(k, empty) ==
  /\ Usable(k) /\ st[k] = "new" /\ empty
  /\ st' = Put(st, k, "asked") /\ why' = Put(why, k, "loose")
  /\ UNCHANGED <<by, out, hk, waits, grp, freed, dropping, settled, imm>>

OwnerHook(k, o) ==
  /\ Dom(st, k) /\ st[k] = "asked" /\ hk[k].o = 0 /\ hk[k].s = 0
  /\ why[k] \in {"await", "get", "all", "any"}
  /\ why[k] \in {"await", "all"} => o = by[k]
  /\ hk' = [hk EXCEPT ![k].o = 1]
  /\ UNCHANGED <<st, why, by, out, waits, grp, freed, dropping, settled, imm>>
StartHook(k) ==
  /\ Dom(st, k) /\ st[k] = "asked" /\ hk[k].s = 0
  /\ (why[k] \in {"await", "get", "all", "any"}) <=> hk[k].o = 1
  /\ hk' = [hk EXCEPT ![k].s = 1]
  /\ UNCHANGED <<st, why, by, out, waits, grp, freed, dropping, settled, imm>>
EndHook(k) ==
  /\ Dom(st, k) /\ hk[k].e = 0 /\ k \notin freed
  /\ IF Dom(grp, k) THEN \E w \in DOMAIN waits : waits[w] = k   \* the body of a group is not observed
     ELSE st[k] = "ended"
  /\ hk' = [hk EXCEPT ![k].e = 1]
  /\ UNCHANGED <<st, why, by, out, waits, grp, freed, dropping, settled, imm>>

BodyBegin(k, hooks) ==
  /\ Dom(st, k) /\ st[k] = "asked" /\ k \notin freed
  /\ hooks /\ why[k] # "loose" => hk[k].s = 1
  /\ st' = Put(st, k, "running")
  /\ UNCHANGED <<why, by, out, hk, waits, grp, freed, dropping, settled, imm>>
Runs(k) == Dom(st, k) /\ st[k] = "running" /\ k \notin freed /\ ~Dom(waits, k)
BodyStep(k) == Runs(k) /\ UNCHANGED kvars
\* told: the ended tasks which have surely told their waiter
BodyEnd(k, kind, v, told) ==
  /\ Runs(k)
  /\ st' = Put(st, k, "ended") /\ out' = Put(out, k, [kind |-> kind, v |-> v])
  /\ settled' = settled \cup {<<j, k>> : j \in told \ (IF Child(k) THEN grp[by[k]].pre ELSE {})}
  /\ UNCHANGED <<why, by, hk, waits, grp, freed, dropping, imm>>
\* keep: the group is started by start_and_detach(true), w looks whether it is done when that returns
GroupBegin(w, g, ks, all, keep) ==
  /\ CanWait(w) /\ ~Dom(st, g) /\ Cardinality(Range(ks)) = Len(ks)
  /\ \A k \in Range(ks) : Usable(k) /\ st[k] \in {"new", "ended"} /\ why[k] \in {"none", "await"}
  /\ LET pre == {k \in Range(ks) : st[k] = "ended"} IN
     /\ grp' = Put(grp, g, [ks |-> ks, all |-> all, pre |-> pre])
     \* those which had ended before tell in their turn of being started
     /\ settled' = {p \in settled : ~({p[1], p[2]} \subseteq Range(ks))}
                   \cup UNION {{<<ks[i], ks[j]>> : j \in (i + 1)..Len(ks)} : i \in {i \in 1..Len(ks) : ks[i] \in pre}}
  /\ waits' = Put(waits, w, g)
  /\ LET D == DOMAIN st \cup {g} IN
     /\ st' = [k \in D |-> IF k = g \/ (k \in Range(ks) /\ st[k] = "new") THEN "asked" ELSE st[k]]
     /\ why' = [k \in D |-> IF k = g THEN (IF keep THEN "keep" ELSE "await") ELSE IF k \in Range(ks) THEN (IF all THEN "all" ELSE "any") ELSE why[k]]
     /\ by' = [k \in D |-> IF k = g THEN w ELSE IF k \in Range(ks) THEN g ELSE by[k]]
  /\ hk' = Put(hk, g, NoHooks)
  /\ UNCHANGED <<out, freed, dropping, imm>>
GroupDone(w, g, hooks) ==
  /\ Dom(waits, w) /\ waits[w] = g /\ (hooks => hk[g] = [o |-> IF why[g] = "keep" THEN 0 ELSE 1, s |-> 1, e |-> 1])
  /\ waits' = Del(waits, w) /\ st' = Put(st, g, "ended")
  /\ UNCHANGED <<why, by, out, hk, grp, freed, dropping, settled, imm>>
AllEnd(w, g, ok, vs, hooks) ==
  /\ Dom(grp, g) /\ grp[g].all
  /\ LET ks == grp[g].ks IN
     /\ Len(ok) = Len(ks) /\ Len(vs) = Len(ks)
     /\ \A i \in 1..Len(ks) : /\ Ended(ks[i]) /\ (hooks => Told(ks[i]))
                              /\ out[ks[i]].v = vs[i] /\ (out[ks[i]].kind = "val" <=> ok[i] = 1)
  /\ GroupDone(w, g, hooks)
Won(g, i) == LET ks == grp[g].ks IN
  /\ i \in 1..Len(ks) /\ Ended(ks[i]) /\ out[ks[i]].kind = "val"
  /\ \A j \in 1..Len(ks) : j # i => ~(Ended(ks[j]) /\ out[ks[j]].kind = "val" /\ <<ks[j], ks[i]>> \in settled)
AnyEnd(w, g, i, v, hooks) ==
  /\ Dom(grp, g) /\ ~grp[g].all /\ Won(g, i)
  /\ out[grp[g].ks[i]].v = v /\ (hooks => Told(grp[g].ks[i]))
  /\ GroupDone(w, g, hooks)
LostLast(g, i) == LET ks == grp[g].ks IN
  /\ i \in 1..Len(ks)
  /\ \A j \in 1..Len(ks) : Ended(ks[j]) /\ out[ks[j]].kind = "exc" /\ <<ks[i], ks[j]>> \notin settled
AnyFail(w, g, i, v, hooks) ==
  /\ Dom(grp, g) /\ ~grp[g].all /\ LostLast(g, i)
  /\ out[grp[g].ks[i]].v = v /\ (hooks => Told(grp[g].ks[i]))
  /\ GroupDone(w, g, hooks)

\* a when_any that is not done is destroyed: its children go on without it
AnyDrop(w, g) ==
  /\ Dom(grp, g) /\ ~grp[g].all /\ why[g] = "keep" /\ Dom(waits, w) /\ waits[w] = g /\ hk[g].e = 0
  /\ LET ks == Range(grp[g].ks) IN
     /\ \A k \in ks : Ended(k) => out[k].kind = "exc"
     /\ \E k \in ks : ~Ended(k)
  /\ waits' = Del(waits, w) /\ st' = Put(st, g, "ended") /\ freed' = freed \cup {g}
  /\ UNCHANGED <<why, by, out, hk, grp, dropping, settled, imm>>

DropBegin(k) == /\ Usable(k) /\ st[k] \in {"new", "ended"} /\ why[k] \in {"none", "await", "get", "keep"}
                /\ dropping' = dropping \cup {k}
                /\ UNCHANGED <<st, why, by, out, hk, waits, grp, freed, settled, imm>>
DropEnd(k) == k \in dropping /\ k \in freed /\ UNCHANGED kvars
Succeeded(g, but) == \E j \in Range(grp[g].ks) \ {but} : Ended(j) /\ out[j].kind = "val"
MayFree(k, hooks) ==
  /\ \A w \in DOMAIN waits : waits[w] = k => why[k] = "get"
  /\ \/ /\ Ended(k) /\ (hooks => Told(k))
        /\ k \in dropping \/ Child(k) \/ why[k] \in {"sad", "loose", "get"}
     \/ st[k] = "new" /\ k \in dropping
     \/ st[k] = "asked" /\ hk[k].s = 0 /\ why[k] = "any" /\ Succeeded(by[k], k)
Free(k, hooks) ==
  /\ Dom(st, k) /\ k \notin freed /\ MayFree(k, hooks)
  /\ freed' = freed \cup {k}
  /\ UNCHANGED <<st, why, by, out, hk, waits, grp, dropping, settled, imm>>
Kept(k, done) == Dom(st, k) /\ why[k] = "keep" /\ (done <=> Ended(k)) /\ k \notin freed /\ UNCHANGED kvars

\* nothing moves any more: everyone has continued, all that was started has ended
QuietOk == /\ waits = << >>
           /\ \A k \in DOMAIN st : st[k] \in {"new", "ended"} \/ (st[k] = "asked" /\ why[k] = "any" /\ k \in freed)
EndOk == QuietOk /\ \A k \in DOMAIN st : k \in freed \/ Dom(grp, k)

-----------------------------------------------------------------------------
KInv == /\ \A k \in DOMAIN st : st[k] \in {"asked", "running"} /\ k \in freed => st[k] = "asked" /\ why[k] = "any"
        /\ \A k \in DOMAIN st : hk[k].o <= 1 /\ hk[k].s <= 1 /\ hk[k].e <= hk[k].s + 1
        /\ \A w, x \in DOMAIN waits : waits[w] = waits[x] => w = x
=============================================================================
