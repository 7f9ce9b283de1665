#!/usr/bin/env python3
"""How much the trace specifications constrain: corrupts recorded traces (one event dropped, repeated,
moved, one number changed) and counts how many TLC rejects.  Development tool.

usage: corrupt.py C06 [traces per scenario]"""
import concurrent.futures as cf
import copy, json, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, plan

prop, want = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 40
ctx = check.Ctx(prop, "quick", 1)
parts = [p for p in plan.PLAN[prop] if p["type"] == "traces"]
check.build(ctx, sorted({p["harness"] for p in parts}))
rnd = random.Random(7)
stat = {}
for p in parts:
    out = os.path.join(ctx.tmp, "t.nd")
    st, died = check.run_harness(ctx, ctx.built[p["harness"]], p["scenario"], 0, want, 1, 99, list(p.get("args", ())), out)
    traces = [json.loads(x) for x in open(out)][:want]
    bad, what = [], []
    for t in traces:
        names = sorted({e["e"] for e in t["ev"]})
        for n in names:
            idx = [i for i, e in enumerate(t["ev"]) if e["e"] == n]
            i = rnd.choice(idx)

            def add(kind, f):
                u = copy.deepcopy(t)
                if f(u["ev"]) is False:
                    return
                bad.append(u)
                what.append((kind, n))
            if i < len(t["ev"]) - 1:
                add("drop", lambda ev: ev.pop(i) and None)
            add("twice", lambda ev: ev.insert(i, dict(ev[i])))
            keys = [k for k, v in t["ev"][i].items() if isinstance(v, int)]
            for k in keys:
                def chg(ev):
                    ev[i][k] += rnd.choice([1, -1])
                add("change " + k, chg)
            if i + 1 < len(t["ev"]) - 1:
                def mv(ev):
                    ev[i], ev[i + 1] = ev[i + 1], ev[i]
                    return None if ev[i].get("t") == ev[i + 1].get("t") else False
                add("swap", mv)
    def judge(a):
        """the rejected ones of a chunk; an evaluation error ends a run of TLC, the rest follows in another"""
        r, ids = set(), list(range(a, min(len(bad), a + 300)))
        path = os.path.join(ctx.tmp, "bad%d.nd" % a)
        while ids:
            with open(path, "w") as f:
                for i in ids:
                    f.write(json.dumps(bad[i]) + "\n")
            g, d, cnt, rej = check.validate(ctx, p["module"], p["cfg"], path)
            got = {ids[n - 1] for n, _, _ in rej}
            r |= got
            if cnt is not None:
                break
            ids = [i for i in ids if i not in got]
        return r

    with cf.ThreadPoolExecutor(3) as ex:
        rej = set().union(*ex.map(judge, range(0, len(bad), 300)))
    for j, w in enumerate(what):
        s = stat.setdefault((p["module"],) + w, [0, 0])
        s[1] += 1
        s[0] += j in rej
import shutil
shutil.rmtree(ctx.tmp)
tot = [sum(s[0] for s in stat.values()), sum(s[1] for s in stat.values())]
print("%s: %d of %d corruptions rejected" % (prop, *tot))
for k, s in sorted(stat.items(), key=lambda x: x[1][0] / x[1][1]):
    if s[0] < s[1]:
        print("  %-16s %-12s %-12s %d/%d" % (*k, *s))
