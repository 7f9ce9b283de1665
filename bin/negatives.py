#!/usr/bin/env python3
# Every MC model must be able to fail: a textual mutation of it, and TLC has to report an error.
# usage: negatives.py [MODULE...]   (development tool, not a check)
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(HERE, "specs")
# module, cfg, what is wrong, [(file, old, new)...]
N = []
def neg(module, cfg, what, *subs):
    N.append((module, cfg, what, subs))

neg("MCLatch", "MCLatch", "a waiter does not look again after its push",
    ("MCLatch", 'stack \\cup {p} /\\ Goto(p, "recheck")', 'stack \\cup {p} /\\ Goto(p, "done")'))
neg("MCLatch", "MCLatch", "the last arrival does not pop",
    ("MCLatch", 'p \\in Downers /\\ pc[p] = "start"\n             \\/ p \\in Arrivers /\\ pc[p] = "sub"\n          /\\ cnt\' = cnt - 1 /\\ Goto(p, IF cnt = 1 THEN "pop"',
     'p \\in Downers /\\ pc[p] = "start"\n             \\/ p \\in Arrivers /\\ pc[p] = "sub"\n          /\\ cnt\' = cnt - 1 /\\ Goto(p, IF cnt = 1 /\\ p \\in Downers THEN "pop"'))
neg("MCLatch", "MCLatch", "everybody who counts down pops",
    ("MCLatch", 'IF cnt = 1 THEN "pop" ELSE "done")', '"pop")'))
neg("MCLatch", "MCLatch", "pop reads the stack and empties it in two steps (two poppers take the same)",
    ("MCLatch", "popped' = [popped EXCEPT ![p] = stack] /\\ stack' = {} /\\ Goto(p, \"attach\")",
     "popped' = [popped EXCEPT ![p] = stack] /\\ UNCHANGED stack /\\ Goto(p, \"attach\")"))
neg("MCAsyncTask", "MCAsyncTask", "gives up its share before it says that the result is there",
    ("MCAsyncTask", 'cpc\' = "set" /\\ UNCHANGED hpc', 'cpc\' = "drop" /\\ UNCHANGED hpc'),
    ("MCAsyncTask", 'IF refs = 1 THEN "free" ELSE "over"\n         /\\ UNCHANGED <<avars, hpc, flag', 'IF refs = 1 THEN "free" ELSE "set"\n         /\\ UNCHANGED <<avars, hpc, flag'),
    ("MCAsyncTask", 'Touch /\\ cpc\' = "drop"', 'Touch /\\ cpc\' = "over"'))
neg("MCAsyncTask", "MCAsyncTask", "the owner always frees",
    ("MCAsyncTask", 'hpc\' = IF refs = 1 THEN "free" ELSE "gone"', 'hpc\' = "free"'))
neg("MCAsyncTask", "MCAsyncTask", "nobody frees if the coroutine is the last",
    ("MCAsyncTask", 'cpc\' = IF refs = 1 THEN "free" ELSE "over"', 'cpc\' = "over"'))
neg("MCAsyncTask", "MCAsyncTask", "the flag is not set",
    ("MCAsyncTask", "flag' = TRUE /\\ Touch", "flag' = flag /\\ Touch"))
neg("MCAsyncTask", "MCAsyncTask", "get does not wait",
    ("MCAsyncTask", 'HGet == hpc = "get" /\\ flag /\\', 'HGet == hpc = "get" /\\'))
neg("MCLFStack", "MCLFStack", "pop does not empty the stack",
    ("MCLFStack", "got' = [got EXCEPT ![t] = top] /\\ top' = Nil", "got' = [got EXCEPT ![t] = top] /\\ UNCHANGED top"))
neg("MCLFStack", "MCLFStack", "push stores instead of comparing",
    ("MCLFStack", 'pc[t] = "cas" /\\ top = exp[t]', 'pc[t] = "cas"'))
neg("MCLFStack", "MCLFStack", "the compare-exchange does not refresh the next field",
    ("MCLFStack", "exp' = [exp EXCEPT ![t] = top] /\\ next' = [next EXCEPT ![last[t]] = top]\n  /\\ UNCHANGED <<top, pc",
     "exp' = [exp EXCEPT ![t] = top] /\\ UNCHANGED next\n  /\\ UNCHANGED <<top, pc"))
neg("MCLFStack", "MCLFStack", "push_stack links its first node",
    ("MCLFStack", "next' = [next EXCEPT ![last[t]] = top]\n  /\\ pc'", "next' = [next EXCEPT ![first[t]] = top]\n  /\\ pc'"))
neg("MCLThread", "MCLThread", "the coroutine never frees",
    ("MCLThread", 'cpc\' = IF flag THEN "free" ELSE "over"', 'cpc\' = "over"'))
neg("MCLThread", "MCLThread", "a detaching owner always frees",
    ("MCLThread", 'hpc\' = IF flag THEN "dfree" ELSE "detached"', 'hpc\' = "dfree"'))
neg("MCLThread", "MCLThread", "test and set in detach are two steps",
    ("MCLThread", 'HDetachSet == /\\ hpc = "detach" /\\ flag\' = TRUE /\\ Touch /\\ hpc\' = IF flag THEN "dfree" ELSE "detached"',
     'HDetachSet == /\\ hpc \\in {"detach", "dset"} /\\ Touch /\\ (IF hpc = "dset" THEN flag\' = TRUE /\\ hpc\' = "detached" ELSE UNCHANGED flag /\\ hpc\' = IF flag THEN "dfree" ELSE "dset")'),
    ("MCLThread", "/\\ UNCHANGED <<lvars, cpc, sflag, willing>>\nHDetachFree", "/\\ UNCHANGED <<lvars, cpc, sflag, willing>>\nHDetachFree"))
neg("MCLThread", "MCLThread", "the destructor does not ask to stop",
    ("MCLThread", 'HDtorStop == hpc = "dtor" /\\ sflag\' = TRUE', 'HDtorStop == hpc = "dtor" /\\ sflag\' = sflag'))
neg("MCLThread", "MCLThread", "join does not wait",
    ("MCLThread", 'HWait == hpc = "wait" /\\ flag /\\', 'HWait == hpc = "wait" /\\'))
neg("MCStackRes", "MCStackRes_2", "no alignment of the state: the bump pointer starts one too high after a chunk was dropped",
    ("MCStackRes", "m' = d[2] - p.n", "m' = d[2] - p.n + 1"))
neg("MCStackRes", "MCStackRes_2", "dropped chunks are forgotten",
    ("MCStackRes", "m' = d[2] - p.n /\\ free' = d[3]", "m' = d[2] - p.n /\\ free' = free"))
neg("MCStackRes", "MCStackRes_0", "the free list's chunks are taken without a look at their size",
    ("MCStackRes", "{i \\in DOMAIN free : Sz(free[i]) >= call.n}", "DOMAIN free"))
neg("MCStackRes", "MCStackRes_2", "reuse forgets the chunks",
    ("MCStackRes", "free' = DropAll(cur, free)", "free' = free"))
neg("MCStackRes", "MCStackRes_2", "a new chunk does not remember the previous one's fill",
    ("MCStackRes", "prev' = (c :> <<cur, m>>)", "prev' = (c :> <<cur, 0>>)"))
neg("MCTask", "MCTask", "a child of a finished when_any continues the owner again",
    ("MCTask", "~alive \\/ ~owner", "~alive"))
neg("MCTask", "MCTask", "when_all continues the owner one child early",
    ("MCTask", 'IF cnt = 1 THEN "resume" ELSE "over"', 'IF cnt = 2 THEN "resume" ELSE "over"'))
neg("MCTask", "MCTask", "when_all: two steps to count",
    ("MCTask", 'SetPc(i, IF cnt = 1 THEN "resume" ELSE "over")\n               /\\ UNCHANGED <<kvars, all',
     'SetPc(i, IF cnt <= 2 THEN "resume" ELSE "over")\n               /\\ UNCHANGED <<kvars, all'))
neg("MCTask", "MCTask", "the state of a left when_any stays in use",
    ("MCTask", "wpc' = \"free\" /\\ alive' = FALSE /\\ keep' = \"left\"", "wpc' = \"free\" /\\ alive' = TRUE /\\ keep' = \"left\""))
neg("MCTask", "MCTask", "children of a when_any do not free themselves",
    ("MCTask", 'FreeC(i) == /\\ IF all THEN wpc = "free" /\\ ~alive ELSE pc[i] \\in {"drop", "gone"}', 'FreeC(i) == /\\ IF all THEN wpc = "free" /\\ ~alive ELSE pc[i] = "drop"'))
neg("MCExec", "MCExec", "reads next after attach",
    ("cfg", "ReadLate = FALSE", "ReadLate = TRUE"))
neg("MCExec", "MCExec", "attach_list skips a node",
    ("MCExec", "reg' = nx[top] /\\ top' = top", "reg' = (IF nx[top] \\in Nodes THEN nx[nx[top]] ELSE nx[top]) /\\ top' = top"))
neg("MCExec", "MCExec", "reverse_list reads next after it wrote it",
    ("MCExec", "prev' = top /\\ top' = nx[top]", "prev' = top /\\ top' = nx'[top]"))
neg("MCStart", "MCStart", "a constructor which fails leaves its threads",
    ("cfg", "Guard = TRUE", "Guard = FALSE"))
neg("MCStart", "MCStart", "the destructor joins only the first worker",
    ("MCStart", 'IF i > n THEN Go("cancel") /\\ i\' = 1 /\\ UNCHANGED q', 'IF i > 1 THEN Go("cancel") /\\ i\' = 1 /\\ UNCHANGED q'))
neg("MCStart", "MCStart", "a refused task is lost with its storage",
    ("MCStart", 'Go("drop") /\\ May(Inject(0, "alloc"))', 'Go("told") /\\ May(Inject(0, "alloc"))'))
neg("MCGen", "MCGen", "the end of a leaf does not tell the outermost",
    ("MCGen", "THEN rt' = [rt EXCEPT ![ow[c]] = rt[c]] /\\ cw' = [cw EXCEPT ![rt[c]] = ow[c]]",
     "THEN rt' = [rt EXCEPT ![ow[c]] = rt[c]] /\\ cw' = cw"))
neg("MCGen", "MCGen", "the end of a leaf keeps the old root",
    ("MCGen", "THEN rt' = [rt EXCEPT ![ow[c]] = rt[c]] /\\", "THEN rt' = rt /\\"))
neg("MCGen", "MCGen", "attach sets the leaf's root, not its worker's",
    ("MCGen", "rt' = [rt EXCEPT ![w] = rt[c]]", "rt' = [rt EXCEPT ![d] = rt[c]]"))
neg("MCGen", "MCGen", "attach forgets the leaf's own leaves",
    ("MCGen", "cw' = [cw EXCEPT ![rt[c]] = w]", "cw' = [cw EXCEPT ![rt[c]] = d]"))
neg("MCHB", "MCHB_sw", "a load does not acquire", ("HB", "![t] = Tick(IF Acq(ord) THEN Join(@, M[o]) ELSE @, t)", "![t] = Tick(@, t)"))
neg("MCHB", "MCHB_sw", "a relaxed write keeps what was published before", ("HB", "![o] = Publishes(t, ord)]", "![o] = Join(@, Publishes(t, ord))]"))
neg("MCHB", "MCHB_sw", "a read-modify-write ends the release sequence", ("HB", "![o] = Join(@, IF Rel(ord) THEN c ELSE fence[t])]", "![o] = IF Rel(ord) THEN c ELSE fence[t]]"))
neg("MCHB", "MCHB_fence", "an acquire fence does nothing", ("HB", "THEN Join(C[t], pend[t]) ELSE C[t] IN", "THEN C[t] ELSE C[t] IN"))
neg("MCHB", "MCHBT_fence", "a release fence does nothing", ("HB", "![t] = IF Rel(ord) THEN c ELSE @]", "![t] = @]"))
neg("MCHB", "MCHB_lock", "a lock does not take what was unlocked", ("HB", "![t] = Join(@, M[o])] /\\ UNCHANGED <<pend", "![t] = @] /\\ UNCHANGED <<pend"))
neg("MCHB", "MCHB_sw", "a relaxed write continues the release sequence", ("MCHB", 'h[k][2] = "X"\nPo', 'h[k][2] \\in {"X", "W"}\nPo'))
neg("MCHB", "MCHBT_fence", "fences are ignored by the definition", ("MCHB", 'RelFence(i) == h[i][2] = "F" /\\', 'RelFence(i) == FALSE /\\'))
neg("MCHB", "MCHB_lock", "locks are ignored by the definition", ("MCHB", 'h[i][2] = "u" /\\ h[j][2] = "l" /\\', 'FALSE /\\ h[i][2] = "u" /\\ h[j][2] = "l" /\\'))
neg("MCMem", "MCMem", "the passed resource stays", ("MCMem", "tls' = [tls EXCEPT ![t] = 0] /\\ UNCHANGED <<mvars, dflt, frames", "tls' = tls /\\ UNCHANGED <<mvars, dflt, frames"))
neg("MCMem", "MCMem", "the default is loaded before the passed one is looked at, and then preferred",
    ("MCMem", 'Go(t, IF tls[t] = 0 THEN "load" ELSE "alloc", [reg[t] EXCEPT !.r = tls[t]])', 'Go(t, "load", [reg[t] EXCEPT !.r = tls[t]])'))
neg("MCMem", "MCMem", "set_default returns the new one", ("MCMem", "SetEnd(t, reg[t].r)", "SetEnd(t, dflt)"))
neg("MCMem", "MCMemLay", "the resource is not aligned", ("MCMem", "Where(sz, k) == sz + Pad(sz, KAl(k))", "Where(sz, k) == sz"))
neg("MCMem", "MCMemLay", "freed with the frame's size only", ("MCMem", "May(Free(f.res, b, Total(f.sz, f.k),", "May(Free(f.res, b, f.sz,"))
neg("MCMem", "MCMem", "freed to the default resource", ("MCMem", "May(Free(f.res, b,", "May(Free(dflt, b,"))
neg("MCPool", "MCPool", "a worker runs the newest first", ("MCPool", "LET it == q[w][1] IN\n     \\/ /\\ w \\notin exited\n        /\\ Run(w, 1, w, ~it.late)", "LET it == q[w][Len(q[w])] IN\n     \\/ /\\ w \\notin exited\n        /\\ Run(w, Len(q[w]), w, ~it.late)"))

I = "MCEventImplInst"
neg(I, "MCEventImpl", "when_all counts before it stores",
    ("MCEventImpl", "Put(@, d.i, d.v)] /\\ Touch(d.s) /\\ Goto(t, \"count\")", "Put(@, d.i, d.v)] /\\ Touch(d.s) /\\ (IF cnt[d.s] = 2 THEN Goto(t, \"resume\") ELSE Gone(t))"),
    ("MCEventImpl", "d.pc = \"begin\" /\\ KindOf(d.s) = \"all\" /\\ inp'", "d.pc = \"put\" /\\ KindOf(d.s) = \"all\" /\\ inp'"),
    ("MCEventImpl", "d.pc = \"count\" /\\ KindOf(d.s) = \"all\"", "d.pc = \"begin\" /\\ KindOf(d.s) = \"all\""),
    ("MCEventImpl", "(IF cnt[d.s] = Len(EvOf(d.s)) - 1 THEN Goto(t, \"resume\") ELSE Gone(t))", "Goto(t, \"put\")"))
neg(I, "MCEventImpl", "when_all resumes one early", ("MCEventImpl", "Len(EvOf(d.s)) - 1 THEN", "Len(EvOf(d.s)) - 2 THEN"))
neg(I, "MCEventImpl", "when_any looks at the counter and adds in two steps",
    ("MCEventImpl", "KindOf(d.s) = \"any\" /\\ cnt' = [cnt EXCEPT ![d.s] = @ + 1]", "KindOf(d.s) = \"any\" /\\ cnt' = cnt"),
    ("MCEventImpl", "Goto(t, \"resume\")\n  /\\ UNCHANGED <<evars, cnt, alive>> /\\ Same\nAnyRun", "Goto(t, \"resume\") /\\ cnt' = [cnt EXCEPT ![d.s] = @ + 1]\n  /\\ UNCHANGED <<evars, alive>> /\\ Same\nAnyRun"))
neg(I, "MCEventImpl", "when_any stores before it counts",
    ("MCEventImpl", "(IF cnt[d.s] = 0 THEN Goto(t, \"put\") ELSE Gone(t))\n  /\\ UNCHANGED <<evars, inp, alive, touched>>",
     "(IF cnt[d.s] = 0 THEN Goto(t, \"resume\") ELSE Gone(t))\n  /\\ inp' = [inp EXCEPT ![d.s] = (0 :> <<d.i, d.v>>)] /\\ Touch(d.s) /\\ UNCHANGED <<evars, alive>>"))
neg(I, "MCEventImpl", "when_any subscribes from its own frame",
    ("MCEventImpl", "(IF KindOf(s) = \"any\" THEN UNCHANGED touched ELSE Touch(s))", "Touch(s)"))
neg(I, "MCEventImpl", "the counter of when_any lies in the awaiter",
    ("MCEventImpl", "UNCHANGED <<evars, inp, alive, touched>> /\\ Same\nAnyPut", "UNCHANGED <<evars, inp, alive>> /\\ Touch(d.s) /\\ Same\nAnyPut"))
neg(I, "MCEventImpl", "a notification leaves the stack as it was",
    ("MCEventImpl", "stack' = [stack EXCEPT ![NoteOf(c)] = {}]", "stack' = stack"))
neg(I, "MCEventImpl", "a notification returns before the last delivery",
    ("MCEventImpl", "dl[c] = None /\\ popped[c] = {})", "popped[c] = {})"))
neg(I, "MCEventImpl", "a notification which woke somebody says it did not",
    ("MCEventImpl", "NotifyEnd(c, npc[c] = \"walk\")", "NotifyEnd(c, FALSE)"))
P = "MCPoolImpl"
neg(P, P, "a push never notifies", (P, "IF lst[w] = << >> /\\ cv[w] = \"waiting\" THEN \"signaled\" ELSE @", "@"))
neg(P, P, "a worker gives the mutex back before it waits",
    (P, "wpc' = [wpc EXCEPT ![w] = \"wait\"] /\\ cv' = [cv EXCEPT ![w] = \"waiting\"] /\\ UNCHANGED <<lst, batch>>",
        "wpc' = [wpc EXCEPT ![w] = \"gap\"] /\\ UNCHANGED <<cv, lst, batch>>"),
    (P, "WWake(w) == /\\ wpc[w] = \"wait\" /\\ (cv[w] = \"signaled\" \\/ spur < Spurious)",
        "WWake(w) == IF wpc[w] = \"gap\" THEN wpc' = [wpc EXCEPT ![w] = \"wait\"] /\\ cv' = [cv EXCEPT ![w] = \"waiting\"] /\\ UNCHANGED <<vars, home, lst, lk, batch, cur, pu, tpc, nth, spc, si, mpc, mi, joined, freed, spur, bad>> ELSE /\\ wpc[w] = \"wait\" /\\ (cv[w] = \"signaled\" \\/ spur < Spurious)"))
neg(P, P, "a push in front", (P, "![w] = @ \\o it]", "![w] = it \\o @]"))
neg(P, P, "a push without the mutex", (P, "pu[t].pc = \"want\" /\\ lk[pu[t].w] = 0", "pu[t].pc = \"want\""),
    (P, "lk[pu[t].w] = 0 /\\ lk' = [lk EXCEPT ![pu[t].w] = t]", "UNCHANGED lk"), )
N.pop()
neg(P, P, "a worker does not cancel what it took", (P, "wpc' = [wpc EXCEPT ![w] = \"cancel\"] /\\ UNCHANGED <<vars, cur>>", "wpc' = [wpc EXCEPT ![w] = \"exit0\"] /\\ UNCHANGED <<vars, cur>>"),
    (P, "wpc[w] = \"cancel\" /\\ batch[w] = << >> /\\ cur[w] = 0", "wpc[w] = \"exit0\""))
neg(P, P, "a worker goes on behind a pill", (P, "CASE it.t = \"pill\" -> wpc' = [wpc EXCEPT ![w] = \"cancel\"]", "CASE it.t = \"pill\" -> wpc' = wpc"))
neg(P, P, "the destructor does not take its pill back",
    (P, "joined' = joined \\cup {mi} /\\ mpc' = \"dpop1\"\n          /\\ UNCHANGED <<vars, home, lst, lk, cv, wpc, batch, cur, pu, tpc, nth, spc, si, mi, freed", "joined' = joined \\cup {mi} /\\ mpc' = \"dtor\" /\\ mi' = mi + 1\n          /\\ UNCHANGED <<vars, home, lst, lk, cv, wpc, batch, cur, pu, tpc, nth, spc, si, freed"))
neg(P, P, "the pill behind the node which frees it", (P, "<<Pill(<<c, si[c]>>), Self(<<c, si[c]>>)>>", "<<Self(<<c, si[c]>>), Pill(<<c, si[c]>>)>>"),
    (P, "IF it[1].t = \"pill\" THEN", "IF it[1].t # \"task\" THEN"))
neg(P, P, "request_stop leaves out a worker", (P, "IF si[c] > NW THEN", "IF si[c] >= NW THEN"))
neg(P, "MCPoolImplW", "wait_stop does not wait", (P, "wpc[mi] = \"exit\" /\\ joined'", "joined'"))
neg(P, "MCPoolImplW", "wait_stop does not cancel",
    (P, "THEN mpc' = \"pop\" /\\ mi' = 1 /\\ UNCHANGED joined", "THEN mpc' = \"pop\" /\\ mi' = NW + 1 /\\ UNCHANGED joined"))
neg(P, "MCPoolImplW", "the destructor does not cancel", (P, "THEN mpc' = \"dpop\" /\\ mi' = 1 /\\ UNCHANGED pu", "THEN mpc' = \"dpop\" /\\ mi' = NW + 1 /\\ UNCHANGED pu"))
neg(P, P, "pop_all leaves the list", (P, "batch' = [batch EXCEPT ![w] = lst[w]] /\\ lst' = [lst EXCEPT ![w] = << >>]", "batch' = [batch EXCEPT ![w] = lst[w]] /\\ lst' = lst"))
def run(n):
    module, cfg, what, subs = n
    d = tempfile.mkdtemp(prefix="negatives_")
    try:
        for f in os.listdir(SPECS):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPECS, f), d)
        for f, old, new in subs:
            p = os.path.join(d, cfg + ".cfg" if f == "cfg" else f + ".tla")
            s = open(p).read()
            if s.count(old) < 1:
                return (n, "NOT FOUND in " + f)
            open(p, "w").write(s.replace(old, new, 1))
        r = subprocess.run(["timeout", "600", "tlc", "-workers", "2", "-noGenerateSpecTE", "-metadir", d + "/st",
                            "-config", cfg + ".cfg", module + ".tla"], cwd=d, capture_output=True, text=True)
        o = r.stdout
        m = re.search(r"(Error: (?!The behavior|The following).*|Deadlock reached.*)", o)
        if "No error has been found" in o:
            return (n, "MISSED")
        if r.returncode == 124:
            return (n, "TIMEOUT")
        if re.search(r"Parsing or semantic|parse|Unknown operator", o) and not m:
            return (n, "BROKEN " + o[-300:])
        return (n, "fails: " + (m.group(0)[:110] if m else o[-300:]))
    finally:
        shutil.rmtree(d, ignore_errors=True)

bad = 0
with ThreadPoolExecutor(4) as ex:
    for r in ex.map(run, [n for n in N if not sys.argv[1:] or n[0] in sys.argv[1:]]):
        if r is None:
            continue
        n, s = r
        bad += not s.startswith("fails")
        print(f"{n[0]:12} {n[2]:70} {s}", flush=True)
sys.exit(bad != 0)
