#!/usr/bin/env python3
"""Decides one property: model-checks its TLA+ specification and binds it to the code in /repo.

usage: check.py C01            (environment: VERIF_SEED, VERIF_TIER=quick|thorough)
       check.py C01 --replay FILE     re-runs a recorded violation

exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed.
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence"))
SPECS = os.path.join(ROOT, "specs")
HARN = os.path.join(ROOT, "harness")
sys.path.insert(0, os.path.join(ROOT, "bin"))
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = 8


class CheckError(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.tmp = tempfile.mkdtemp(prefix="kelcheck_%s_" % prop)
        self.states = self.transitions = self.traces = self.models = 0
        self.parts, self.samples, self.violations, self.notes = [], [], [], []
        self.built = {}
        self.t0 = time.time()

    def left(self, total):
        return total - (time.time() - self.t0)


# ----------------------------------------------------------------- building
RT_FLAGS = ["-std=c++20", "-O2", "-g", "-fno-pie"]
TU_FLAGS = ["-std=c++20", "-O1", "-g", "-fsanitize=thread", "-funreachable-traps", "-Wno-tsan", "-fno-pie"]
LINK = ["-no-pie", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"]


def sh(cmd, cwd=None, timeout=600):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                          text=True, errors="replace")


def build(ctx, names):
    """compiles the harness programs against REPO's headers; returns name -> executable"""
    jobs = [("vrt", ["g++"] + RT_FLAGS + ["-I.", "-c", "vrt/vrt.cpp"])]
    for n in names:
        flags = TU_FLAGS
        extra = []
        with open(os.path.join(HARN, n + ".cpp")) as f:
            m = re.match(r"// flags: (.*)", f.readline())
            if m:
                extra = m.group(1).split()
        jobs.append((n, ["g++"] + flags + extra + ["-I.", "-I" + REPO + "/include", "-c", n + ".cpp"]))

    def one(j):
        o = os.path.join(ctx.tmp, j[0] + ".o")
        r = sh(j[1] + ["-o", o], cwd=HARN)
        if r.returncode:
            raise CheckError("cannot build harness %s:\n%s" % (j[0], r.stdout[-3000:]))
        return o

    with cf.ThreadPoolExecutor(NCPU) as ex:
        objs = dict(zip([j[0] for j in jobs], ex.map(one, jobs)))
    for n in names:
        exe = os.path.join(ctx.tmp, n)
        r = sh(["g++", objs[n], objs["vrt"]] + LINK + ["-o", exe])
        if r.returncode:
            raise CheckError("cannot link %s:\n%s" % (n, r.stdout[-3000:]))
        ctx.built[n] = exe


# ----------------------------------------------------------------- TLC
def tlc(ctx, module, cfg, env=None, workers=1, deque=False, heap="3g", timeout=800, args=()):
    meta = tempfile.mkdtemp(dir=ctx.tmp)
    cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss64m",
           "-Djava.io.tmpdir=" + meta]
    if deque:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE"]
    cmd += list(args) + ["-config", cfg, module + ".tla"]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPECS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           timeout=timeout, env=e)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), -1
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
    g, d = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    return rc, out, g, d


# ----------------------------------------------------------------- parts of a check
def part_model(ctx, p):
    """exhaustive check of the specification on a small instance"""
    cfg = p.get("thorough") if ctx.tier == "thorough" and p.get("thorough") else p["cfg"]
    t = time.time()
    rc, out, g, d = tlc(ctx, p["module"], cfg, workers=p.get("workers", 2), heap="6g", args=p.get("args", ()))
    if rc != 0 or "No error has been found" not in out:
        raise CheckError("model %s/%s: rc %s\n%s" % (p["module"], cfg, rc, out[-4000:]))
    need = p.get("cover", ())
    return dict(kind="model", what="%s/%s" % (p["module"], cfg), states=d, transitions=g, wall=round(time.time() - t, 1))


def run_harness(ctx, exe, scen, v0, v1, runs, seed, extra, out):
    prog = out + ".progress"
    cmd = [exe, "--run", scen, "--v", "%d:%d" % (v0, v1), "--runs", str(runs), "--seed", str(seed), "--out", out,
           "--progress", prog] + list(extra)
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=600)
        rc, so, se = r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        rc, so, se = "timeout", "", ""
    if rc == 0:
        return json.loads(so.strip().splitlines()[-1]), None
    where = open(prog, errors="replace").read().split("\0")[0] if os.path.exists(prog) else ""
    return None, dict(rc=rc, where=where, stderr=se[-1000:])


def parse_batch(out):
    rej = [(int(a), int(b)) for a, b in re.findall(r'<<"REJECT", (\d+), (\d+)>>', out)]
    m = re.search(r'<<"BATCH", (\d+), (\d+)>>', out)
    if not m:
        return None
    return int(m.group(1)), rej


def validate(ctx, module, cfg, path, timeout=800):
    rc, out, g, d = tlc(ctx, module, cfg, env={"VTRACES": path}, deque=True, timeout=timeout, args=("-lncheck", "final"))
    b = parse_batch(out)
    inv = re.search(r"Error: Invariant (\S+) is violated", out)
    if inv:
        m = re.findall(r"^/\\ tid = (\d+)", out, re.M)
        q = re.findall(r"^/\\ pos = (\d+)", out, re.M)
        return g, d, None, [(int(m[-1]), int(q[-1]), "invariant " + inv.group(1))]
    odd = re.search(r"Error: (Evaluating|The following|In evaluation|Attempted|The first argument|The second argument|The argument|"
                    r"TLC threw an unexpected exception|The behavior up to this point is)", out)
    if odd and "Parsing or semantic analysis failed" not in out and "OutOfMemory" not in out:
        # values the specification does not even have an expression for
        m = re.findall(r"^(?:/\\ )?tid = (\d+)", out, re.M)
        q = re.findall(r"^(?:/\\ )?pos = (\d+)", out, re.M)
        if m and q:
            return g, d, None, [(int(m[-1]), int(q[-1]), "no meaning in the specification")]
    if (rc != 0 or b is None or "Error:" in out) and "OutOfMemory" not in out and \
            "Parsing or semantic analysis failed" not in out:
        # an execution that ended before it had recorded what the specification starts from; no
        # specification explains these events
        rej = []
        for n, l in enumerate(open(path), 1):
            for i, x in enumerate(json.loads(l)["ev"], 1):
                if x["e"] in ("abort", "mem"):
                    rej.append((n, i, "no meaning in the specification"))
                    break
        if rej:
            return g, d, None, rej[:3]
    if rc != 0 or b is None or "Error:" in out:
        raise CheckError("TLC failed on %s/%s %s: rc %s\n%s" % (module, cfg, path, rc, out[-3000:]))
    return g, d, b[0], [(n, pos, "") for n, pos in b[1]]


def part_traces(ctx, p):
    return None  # expanded by shards()


def shard_job(ctx, p, i, v0, v1, runs, seed):
    base = os.path.join(ctx.tmp, "%s_%s_%d_%d" % (p["harness"], p["scenario"], seed, i))
    out = base + ".nd"
    extra = list(p.get("args", ()))
    st, died = run_harness(ctx, ctx.built[p["harness"]], p["scenario"], v0, v1, runs, seed, extra, out)
    res = dict(kind="traces", what="%s:%s -> %s/%s" % (p["harness"], p["scenario"], p["module"], p["cfg"]), states=0,
               transitions=0, traces=0, viol=[])
    if died:
        v, _, c = died["where"].partition(" ")
        again = None
        if v.strip().isdigit():
            _, again = run_harness(ctx, ctx.built[p["harness"]], p["scenario"], int(v), int(v) + 1, 1, seed,
                                   extra + ["--replay", c], base + ".again")
        if not again:
            # not reproducible in isolation: the whole shard again
            _, again = run_harness(ctx, ctx.built[p["harness"]], p["scenario"], v0, v1, runs, seed, extra, out)
        if not again:
            raise CheckError("harness %s died (%s) but not when repeated" % (p["harness"], died))
        res["viol"].append(dict(part=pub(p), v=v, seed=seed, c=c, pos=0, why="the process died: %s" % died, trace=None,
                                shard=[v0, v1, runs]))
        return res
    n = sum(1 for _ in open(out))
    if n == 0:
        raise CheckError("no traces from %s %s" % (p["harness"], p["scenario"]))
    lines = None
    todo = out
    while True:
        g, d, cnt, rej = validate(ctx, p["module"], p["cfg"], todo)
        res["states"] += d
        res["transitions"] += g
        if cnt is not None:
            res["traces"] += cnt - len(rej)
        if rej and lines is None:
            lines = open(todo).read().splitlines()
        for k, pos, why in rej[:3]:
            t = json.loads(lines[k - 1])
            res["viol"].append(dict(part=pub(p), v=t["v"], seed=t["seed"], c=t["c"], pos=pos, why=why, trace=t,
                                    shard=[v0, v1, runs]))
        break
    res["violating"] = len(rej)
    with open(out) as f:
        for line in f:
            res["sample"] = json.loads(line)
            break
    if not rej:
        os.unlink(out)
    res["harness_runs"] = st["runs"]
    return res


def pub(p):
    return {k: v for k, v in p.items() if not callable(v)}


def confirm(ctx, v):
    """re-executes a rejected execution from its choices and asks TLC again"""
    p = v["part"]
    out = os.path.join(ctx.tmp, "confirm.nd")
    st, died = run_harness(ctx, ctx.built[p["harness"]], p["scenario"], int(v["v"]), int(v["v"]) + 1, 1, v["seed"],
                           list(p.get("args", ())) + ["--replay", v["c"]], out)
    if died:
        return v["trace"] is None
    if not os.path.getsize(out):
        return False
    g, d, cnt, rej = validate(ctx, p["module"], p["cfg"], out)
    return bool(rej)


def confirm_shard(ctx, v):
    """re-executes everything that ran in the process of a rejected execution, in a new process"""
    p = v["part"]
    out = os.path.join(ctx.tmp, "confirm.nd")
    v0, v1, runs = v["shard"]
    st, died = run_harness(ctx, ctx.built[p["harness"]], p["scenario"], v0, v1, runs, v["seed"], list(p.get("args", ())), out)
    if died:
        return v["trace"] is None
    g, d, cnt, rej = validate(ctx, p["module"], p["cfg"], out)
    lines = open(out).read().splitlines()
    for k, pos, why in rej:
        t = json.loads(lines[k - 1])
        if v["trace"] and t["ev"] == v["trace"]["ev"]:
            v["needs"] = "every execution before it in its process"
            return True
    return False


def replay_file(ctx, v):
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(v, sort_keys=True, default=str).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s_%s.json" % (ctx.prop, h))
    with open(path, "w") as f:
        json.dump(dict(property=ctx.prop, **v), f, indent=1, default=str)
    return path


def describe(v):
    t = v.get("trace")
    if not t or "ev" not in t:
        return v.get("why", "")
    n = v["pos"]
    ev = t["ev"]
    s = json.dumps(ev[n - 1]) if 0 < n <= len(ev) else "?"
    return "%s event %d of %d not explained by the specification: %s %s" % (t.get("s", ""), n, len(ev), s, v.get("why", ""))


# ----------------------------------------------------------------- known findings
def known_findings(prop):
    f = os.path.join(ROOT, "known_findings.txt")
    r = []
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"open: property=(\S+) match=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3)))
    return r


# ----------------------------------------------------------------- main
def main():
    import plan
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    parts = plan.PLAN[prop]
    only = os.environ.get("VERIF_ONLY")  # development: only these harnesses
    if only:
        parts = [p for p in parts if p.get("harness") in only.split(",")]
    ctx = Ctx(prop, tier, seed)
    try:
        if "--replay" in sys.argv:
            rc = do_replay(ctx, sys.argv[sys.argv.index("--replay") + 1])
        else:
            rc = run(ctx, parts)
    except CheckError as e:
        print("CHECK-ERROR %s: %s" % (prop, e))
        rc = 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(ctx.tmp, ignore_errors=True)
    sys.exit(rc)


def do_replay(ctx, path):
    v = json.load(open(path))
    build(ctx, [v["part"]["harness"]])
    bad = confirm_shard(ctx, v) if v.get("needs") else confirm(ctx, v)
    print("replay %s: %s" % (path, "still violated" if bad else "not violated"))
    return 1 if bad else 0


def run(ctx, parts):
    thorough = ctx.tier == "thorough"
    budget = 780 if thorough else 100000
    results = []
    probes = [p for p in parts if p["type"] == "probe"]
    for p in probes:
        r = sh(["g++", "-std=c++20", "-fsyntax-only", "-I" + REPO + "/include", p["file"]], cwd=HARN)
        if r.returncode:
            # the probe is a use the property promises; it is the code's fault if only the probe fails
            ctx.violations.append(dict(part=pub(p), v=0, seed=ctx.seed, c="", pos=0, trace=None,
                                       why="does not compile: " + p["what"] + "\n" + r.stdout[-1500:]))
        results.append(dict(kind="probe", what=p["what"], states=0, transitions=0))
    names = sorted({p["harness"] for p in parts if p["type"] == "traces"})
    with cf.ThreadPoolExecutor(NCPU) as ex:
        pre = [ex.submit(part_model, ctx, p) for p in parts if p["type"] == "model"]
        if names:
            build(ctx, names)
        rounds = 0
        futs = []

        def submit(round_):
            jobs = []
            for p in parts:
                if p["type"] != "traces":
                    continue
                nv = p["variants"]
                runs = p["runs"] * (4 if thorough else 1)
                per = max(1, (nv + p.get("shards", 4) - 1) // p.get("shards", 4))
                i = 0
                for v0 in range(0, nv, per):
                    q = p
                    if p.get("plain") and i % 2:  # may also be preempted at plain accesses to the heap
                        q = dict(p, args=list(p.get("args", ())) + ["--plain", str(p["plain"])])
                    jobs.append((p.get("weight", 1), q, i, v0, min(nv, v0 + per), runs, ctx.seed * 1000 + round_))
                    i += 1
            jobs.sort(key=lambda j: -j[0])
            return [ex.submit(shard_job, ctx, *j[1:]) for j in jobs]

        while True:
            futs = submit(rounds)
            for f in cf.as_completed(futs):
                r = f.result()
                results.append(r)
                ctx.violations += r.get("viol", [])
            rounds += 1
            if not thorough or ctx.violations or not names or (time.time() - ctx.t0) * (rounds + 1) / rounds > budget:
                break
        for f in pre:
            results.append(f.result())
    # merge
    merged = {}
    for r in results:
        m = merged.setdefault((r["kind"], r["what"]), dict(kind=r["kind"], what=r["what"], states=0, transitions=0, traces=0,
                                                           executions=0))
        for k in ("states", "transitions", "traces"):
            m[k] += r.get(k, 0)
        m["executions"] += r.get("harness_runs", 0)
        if r.get("sample") and "sample" not in m:
            m["sample"] = r["sample"]
        if r.get("extra"):
            m["extra"] = r["extra"]
    known = known_findings(ctx.prop)
    new, listed = [], {}
    for v in ctx.violations:
        k = next((k for k in known if re.search(k[0], json.dumps(v, default=str))), None)
        if k:
            listed[k] = v
        else:
            new.append(v)
    final = []
    for v in new[:40]:
        if v["part"]["type"] != "traces" or confirm(ctx, v):
            final.append(v)
        if len(final) == 4:
            break
    for v in new[:4] if not final else []:
        # state that outlives an execution (a static variable): the executions before it are needed too
        if confirm_shard(ctx, v):
            final.append(v)
            break
    if new and not final:
        raise CheckError("a rejected trace is not rejected when replayed: %s" % describe(new[0]))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (ctx.prop, k[1]))
    write_evidence(ctx, merged.values(), len(new))
    for v in final:
        print("  " + describe(v)[:1500])
    for v in final[:1]:
        print("VIOLATION property=%s replay=%s" % (ctx.prop, replay_file(ctx, v)))
    if final:
        return 1
    print("%s: held: %s" % (ctx.prop, ", ".join("%s %s" % (k, sum(m[k] for m in merged.values()))
                                               for k in ("states", "transitions", "traces", "executions"))))
    return 0


def write_evidence(ctx, parts, nviol):
    parts = list(parts)
    samples = []
    for m in parts:
        s = m.pop("sample", None)
        if s:
            t = json.dumps(s)
            samples.append(s if len(t) < 4000 else t[:4000] + "...")
    import plan
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level="model_checking",
              coverage=dict(states=sum(m["states"] for m in parts), transitions=sum(m["transitions"] for m in parts),
                            traces_validated_against_impl=sum(m["traces"] for m in parts), samples=samples[:6],
                            executions_of_the_code=sum(m["executions"] for m in parts), parts=parts, exhaustive=False),
              assumptions=plan.ASSUMPTIONS.get(ctx.prop, plan.COMMON_ASSUMPTIONS),
              wall_s=round(time.time() - ctx.t0, 1), violations=nviol)
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    main()
