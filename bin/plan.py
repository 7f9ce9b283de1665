"""What decides each property: models, trace sources and replayed behaviours."""

COMMON_ASSUMPTIONS = [
    "std atomics, mutexes, condition variables and threads behave as the standard says (the runtime's stand-ins implement that)",
    "programs and schedules are sampled within the stated bounds; the specification is checked exhaustively on small instances only",
]
ASSUMPTIONS = {}


def traces(harness, scenario, module, cfg, variants, runs, shards=4, args=(), weight=1, plain=20):
    return dict(type="traces", harness=harness, scenario=scenario, module=module, cfg=cfg, variants=variants, runs=runs,
                shards=shards, args=list(args), weight=weight, plain=plain)


def model(module, cfg, thorough=None, workers=2, args=()):
    return dict(type="model", module=module, cfg=cfg, thorough=thorough, workers=workers, args=list(args))


def probe(file, what):
    return dict(type="probe", file=file, what=what)


PLAN = {}


def pool(cfg):
    return [
        model("MCPool", "MCPool.cfg", "MCPoolT.cfg", 3),
        traces("pool", "pool_run", "PoolTrace", cfg, 200, 60, 4),
        traces("pool", "pool_stop", "PoolTrace", cfg, 200, 60, 4),
        traces("pool", "worker_run", "PoolTrace", cfg, 80, 60, 2),
        traces("pool", "queue_run", "PoolTrace", cfg, 80, 60, 2),
        traces("pool", "pool_big", "PoolTrace", cfg.replace("Trace_", "TraceN_"), 60, 3, 2),
    ]


PLAN["C01"] = [model("MCPoolImpl", "MCPoolImpl.cfg", "MCPoolImplT.cfg", 3)] + pool("PoolTrace_C01.cfg")
PLAN["C02"] = pool("PoolTrace_C02.cfg")
PLAN["C03"] = [model("MCPoolImpl", "MCPoolImplW.cfg", "MCPoolImplWT.cfg", 3)] + pool("PoolTrace_C03.cfg")
PLAN["C04"] = [probe("probe_hash.cpp", "the operation hash of a coroutine")] + pool("PoolTrace_C04.cfg")

PLAN["C05"] = [
    model("MCLFStack", "MCLFStack.cfg", "MCLFStackT.cfg", 2),
    traces("lf", "lf", "LFStackTrace", "LFStackTrace.cfg", 200, 80, 4),
    traces("lf", "lf_big", "LFStackTrace", "LFStackTraceN.cfg", 60, 6, 4),
]


def ev(scenario, v, r, shards):
    return traces("events", scenario, "EventTrace", "EventTrace.cfg", v, r, shards)


PLAN["C06"] = [
    model("MCEventInst", "MCEvent.cfg", "MCEventT.cfg", 2), model("MCEventImplInst", "MCEventImpl.cfg", "MCEventImplT.cfg", 2),
    ev("ev_one", 240, 60, 4), ev("ev_exec", 160, 60, 4), ev("ev_mix", 80, 50, 2),
]
PLAN["C07"] = [
    model("MCEventInst", "MCEvent.cfg", "MCEventT.cfg", 2), model("MCEventImplInst", "MCEventImpl.cfg", "MCEventImplT.cfg", 2),
    ev("ev_all", 200, 60, 4), ev("ev_any", 200, 60, 4), ev("ev_mix", 80, 50, 2),
]

PLAN["C08"] = [
    model("MCLatch", "MCLatch.cfg", "MCLatchT.cfg", 2),
    traces("latch", "latch", "LatchTrace", "LatchTrace.cfg", 400, 60, 4),
    traces("latch", "latch_big", "LatchTrace", "LatchTrace.cfg", 400, 60, 4),
]
PLAN["C09"] = PLAN["C10"] = [
    model("MCAsyncTask", "MCAsyncTask.cfg", None, 1),
    traces("async", "async_val", "AsyncTaskTrace", "AsyncTaskTrace.cfg", 400, 60, 4),
    traces("async", "async_other", "AsyncTaskTrace", "AsyncTaskTrace.cfg", 400, 60, 4),
]

PLAN["C11"] = [
    model("MCLThread", "MCLThread.cfg", None, 1),
    traces("lthread", "lthread", "LThreadTrace", "LThreadTrace.cfg", 400, 60, 4),
    traces("lthread", "lthread_r", "LThreadTrace", "LThreadTrace.cfg", 200, 60, 4),
]


def task(*scens):
    return [model("MCTask", "MCTask.cfg", "MCTaskT.cfg", 2)] + [
        traces("task", n, "TaskTrace", "TaskTrace.cfg", v, r, 4) for n, v, r in scens]


PLAN["C12"] = PLAN["C13"] = task(("task_life", 480, 60), ("task_mix", 120, 40))
PLAN["C14"] = [probe("probe_expected.cpp", "the results of when_all")] + task(("task_all", 400, 60), ("task_mix", 120, 40), ("task_big", 60, 2))
PLAN["C15"] = task(("task_any", 400, 60), ("task_mix", 120, 40))


def gen(*scens):
    return [model("MCGen", "MCGen.cfg", "MCGenT.cfg", 3)] + [
        traces(h, n, "GenTrace", "GenTrace.cfg", v, r, 4) for h, n, v, r in scens]


PLAN["C16"] = PLAN["C17"] = gen(("gen", "gen", 6000, 1))
PLAN["C18"] = gen(("gen", "gen", 2000, 1), ("gen", "gen_moves", 2500, 1), ("gen", "chan", 1000, 2), ("gen", "chan_moves", 2500, 2))
PLAN["C21"] = gen(("gen", "gen", 4000, 1), ("gen", "chan", 2000, 2))
PLAN["C19"] = PLAN["C20"] = gen(("gen", "chan", 2500, 2), ("gen", "chan_moves", 1000, 2), ("gen", "chan_hop", 3000, 3))
PLAN["C22"] = [model("MCGen", "MCGenFlat.cfg", None, 2), traces("inplace", "inplace", "GenTrace", "GenTrace.cfg", 6000, 1, 4)]
PLAN["C23"] = gen(("gen", "gen", 2000, 1), ("gen", "gen_moves", 800, 1), ("gen", "chan", 1000, 2), ("gen", "chan_moves", 600, 2), ("gen", "jobs", 300, 30), ("inplace", "inplace", 1500, 1))



def hb(n, plain, alone=False):
    """executions with every memory access and synchronisation recorded; happens-before decides"""
    def t(h, s, v, r, shards=2):
        return traces(h, s, "HBTrace", "HBTrace.cfg", v * n, r, shards, ("--hb",), plain=plain)
    return [model("MCHB", "MCHB_%s.cfg" % a, None, 1) for a in ("sw", "fence", "lock", "mixed")] + [
        t("pool", "pool_run", 60, 20), t("pool", "pool_stop", 60, 20), t("pool", "worker_run", 40, 20), t("pool", "queue_run", 40, 20),
        t("lf", "lf", 100, 20),
        t("events", "ev_one", 60, 20), t("events", "ev_exec", 60, 20), t("events", "ev_all", 60, 20), t("events", "ev_any", 60, 20),
        t("events", "ev_mix", 40, 20),
        t("latch", "latch", 100, 20),
        t("async", "async_val", 60, 20), t("async", "async_other", 60, 20),
        t("lthread", "lthread", 50, 20), t("lthread", "lthread_r", 50, 20),
        t("task", "task_life", 60, 20), t("task", "task_all", 60, 20), t("task", "task_any", 60, 20), t("task", "task_mix", 40, 20),
        t("gen", "chan_hop", 50, 15), t("gen", "jobs", 50, 15),
        t("mem", "mem_pmr", 60, 15), t("mem", "mem_pool", 60, 15),
        t("exec", "exec_plain", 60, 15), t("exec", "exec_all", 50, 15), t("start", "start", 60, 15),
    ] + ([
        # frames, nodes and elements of one thread at a time
        t("mem", "mem_kinds", 1500, 1), t("gen", "gen", 1200, 1), t("gen", "chan", 800, 1), t("inplace", "inplace", 600, 1),
        t("stackres", "stack_ops", 800, 1),
    ] if alone else [])


PLAN["C24"] = [
    model("MCStackRes", "MCStackRes_0.cfg", "MCStackResT_0.cfg", 2), model("MCStackRes", "MCStackRes_2.cfg", "MCStackResT_2.cfg", 2),
    traces("stackres", "stack_ops", "StackResTrace", "StackResTrace.cfg", 16000, 1, 4),
]
PLAN["C25"] = [
    model("MCMem", "MCMemLay.cfg", "MCMemT.cfg", 2),
    traces("mem", "mem_kinds", "MemTrace", "MemTrace.cfg", 20000, 1, 4),
    traces("mem", "mem_pool", "MemTrace", "MemTrace.cfg", 1000, 10, 4),
]
PLAN["C26"] = [
    model("MCMem", "MCMem.cfg", "MCMemT.cfg", 2),
    traces("mem", "mem_pmr", "MemTrace", "MemTrace.cfg", 4000, 4, 6),
]
PLAN["C27"] = hb(1, 20)
PLAN["C28"] = hb(1, 40, True)

PLAN["C29"] = [
    model("MCExec", "MCExec.cfg", "MCExecT.cfg", 3),
    traces("exec", "exec_plain", "ExecTrace", "ExecTrace.cfg", 2500, 4, 4),
    traces("exec", "exec_all", "ExecTrace", "ExecTrace.cfg", 1500, 5, 4),
]
PLAN["C30"] = [
    model("MCStart", "MCStart.cfg", "MCStartT.cfg", 3),
    traces("start", "start", "StartTrace", "StartTrace.cfg", 3000, 4, 4),
    traces("mem", "mem_pool", "MemTrace", "MemTrace.cfg", 600, 6, 2),
]

TRACE_NOTE = ("The TLA+ specification is checked exhaustively by TLC on small instances; executions of the real code under a "
              "controlled scheduler (bounded deviations and random walks over generated programs) are validated against it. "
              "Bounded: sampled programs and schedules, sequentially consistent interleavings.")
DESCR = {}


def describe(p):
    return DESCR.get(p, ("TLA+ specification checked with TLC; traces of the real code under a controlled scheduler validated "
                         "against it", TRACE_NOTE))
