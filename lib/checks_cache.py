"""Checks of the block cache (C01-C05): programs generated by TLC are run on the real cache, single threaded under
AddressSanitizer and multi threaded under a controlled scheduler; the recorded executions are validated by TLC against
spec/BlockCacheTrace.tla, which constrains the events of spec/BlockCache.tla."""
from common import *

TRACE_CFG = ('SPECIFICATION TSpec\nCONSTANTS\n  PropId = "%s"\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n')
EV = {1: "reset", 2: "new record", 3: "pin (inc)", 4: "unpin (dec)", 5: "load", 6: "evict", 7: "record removed", 8: "flush",
      9: "read", 10: "open", 11: "copy", 12: "fill", 13: "write", 14: "field closed", 15: "limit", 16: "quiescent", 17: "statistics",
      18: "reset statistics", 19: "copyFrom"}


def explain(e):
    return EV.get(e[0], "?") + " " + str(e[1:])


def _cache(c, conc, conc2, life, ns, mc=(), validate=True):
    """conc/conc2/life: numbers of generated programs; ns: schedules per program."""
    T = c.thorough
    k = 8 if T else 1
    ex = cf.ThreadPoolExecutor(4)
    hs = ex.submit(c.harness, "cache", "sched", ["vsched.cpp"], ["-DWITH_SCHED"]) if conc or conc2 else None
    ha = ex.submit(c.harness, "cache", "asan") if life else None
    for cfg in mc:
        c.model_check("ClockCache", cfg, workers=4)
    sets = []
    if conc:
        b = c.simulate("BlockCacheGen", "BlockCacheGen_conc.cfg", num=conc * k, depth=40, procs=2)
        sets.append(("concurrent", hs, b, ns * (4 if T else 1)))
    if conc2:
        b = c.simulate("BlockCacheGen", "BlockCacheGen_conc2.cfg", num=conc2 * k, depth=40, procs=2, seed=c.seed + 7)
        sets.append(("concurrent-tiny-budget", hs, b, ns * (4 if T else 1)))
    if life:
        b = c.simulate("BlockCacheGen", "BlockCacheGen_life.cfg", num=life * k, depth=45, procs=2, seed=c.seed + 3)
        sets.append(("life-cycle", ha, b, 1))
    for name, h, b, n in sets:
        for i, x in enumerate(b):
            x["seed"] = c.seed * 100000 + i
            x["ns"] = n
        c.samples.append(dict(kind=name, scenario=b[0]["sc"], program=b[0]["prog"][0][:6]))
        od = c.outdir(name)
        c.replay(h.result(), b, name, outdir=od, count=not validate)
        if validate and not c.violations:
            c.validate("BlockCacheTrace", TRACE_CFG % c.pid, od, name, explain=explain)
    c.assumptions += ["context switches only at instrumented accesses to shared memory and at pthread calls (sequentially consistent)",
                      "the driver's log of values and the library's guarded event hooks are truthful"]


def c01(c):
    _cache(c, 32, 32, 120, 15)


def c02(c):
    _cache(c, 40, 24, 80, 15, mc=("ClockCache_mc.cfg",))


def c03(c):
    _cache(c, 32, 32, 120, 15, mc=("ClockCache_mc0.cfg",))


def c04(c):
    _cache(c, 40, 80, 80, 20, mc=("ClockCache_mc.cfg", "ClockCache_mc0.cfg"), validate=False)


def c05(c):
    _cache(c, 24, 0, 240, 15)


def f04(c):
    """The writer and reader thread pools: scenarios of spec/WriterGen.tla under the controlled scheduler."""
    h = cf.ThreadPoolExecutor(1).submit(c.harness, "f04_writer", "sched", ["vsched.cpp"], ["-DWITH_SCHED"])
    c.model_check("WriterPipeline", "WriterPipeline_deep.cfg" if c.thorough else "WriterPipeline_mc.cfg", workers=3)
    k = 4 if c.thorough else 1
    for mode, n, ns, sd in (("write", 160, 400, 0), ("read", 64, 120, 11)):
        b = c.simulate("WriterGen", "WriterGen.cfg", num=n * k, depth=5, procs=2, seed=c.seed + sd)
        for i, x in enumerate(b):
            x["seed"] = c.seed * 100000 + i
            x["ns"] = ns * k
        c.samples.append(dict(mode=mode, scenario={f: b[0][f] for f in ("grid", "alloc", "th", "managed")}, schedules=ns * k))
        c.replay(h.result(), b, "threaded " + mode, args=(mode,))
    c.assumptions += ["context switches only at instrumented accesses to shared memory and at pthread calls (sequentially consistent)"]


REF_EV = {2: "acquired", 3: "release announced", 4: "deleted", 6: "look-up returned", 7: "new object", 8: "weak observer", 9: "quiescent", 11: "cache size"}


def _refs(c, own, read, seq, ns):
    T = c.thorough
    k = 4 if T else 1
    ex = cf.ThreadPoolExecutor(2)
    hs = ex.submit(c.harness, "refs", "sched", ["vsched.cpp"], ["-DWITH_SCHED"])
    ha = ex.submit(c.harness, "refs", "asan") if seq else None
    c.model_check("RefCount", "RefCount_mc.cfg", workers=3)
    c.model_check("RefCount", "RefCount_deep.cfg" if T else "RefCount_cache.cfg", workers=3)
    for name, n, h, sn in (("own", own, hs, ns), ("read", read, hs, ns // 3), ("seq", seq, ha, 1)):
        if not n:
            continue
        b = c.simulate("RefGen", f"RefGen_{name}.cfg", num=n * k, depth=5, procs=2)
        for i, x in enumerate(b):
            x["seed"] = c.seed * 100000 + i
            x["ns"] = sn * (k if sn > 1 else 1)
        c.samples.append(dict(kind=name, scenario=b[0]))
        od = c.outdir(name)
        c.replay(h.result(), b, name, outdir=od, count=False)
        if not c.violations:
            c.validate("RefTrace", TRACE_CFG % c.pid, od, name, explain=lambda e: REF_EV.get(e[0], "?"))
    c.assumptions += ["context switches only at instrumented accesses to shared memory and at pthread calls (sequentially consistent)"]


def r01(c):
    _refs(c, 200, 48, 0, 100)


def r02(c):
    _refs(c, 0, 120, 160, 240)


def p01(c):
    """Multi-resolution fields read on demand: scenarios of spec/MIPGen.tla, one thread and scheduled."""
    T = c.thorough
    ex = cf.ThreadPoolExecutor(2)
    hs = ex.submit(c.harness, "mip_lazy", "sched", ["vsched.cpp"], ["-DWITH_SCHED"])
    ha = ex.submit(c.harness, "mip_lazy", "asan")
    c.model_check("MIPLazy", "MIPLazy_deep.cfg" if T else "MIPLazy_mc.cfg", workers=3)
    c.model_check("MIPLazy", "MIPLazy_live.cfg", workers=3)
    if not T:
        c.model_check("MIPLazy", "MIPLazy_three.cfg", workers=3)
    for name, n, h, ns in (("conc", 320, hs, 80), ("seq", 2000, ha, 1)):
        b = c.simulate("MIPGen", f"MIPGen_{name}.cfg", num=n * (4 if T else 1), depth=200, procs=2)
        for i, x in enumerate(b):
            x["seed"] = c.seed * 100000 + i
            x["ns"] = ns * (4 if T and ns > 1 else 1)
        c.samples.append(dict(kind=name, scenario=b[0]))
        c.replay(h.result(), b, name)
    c.assumptions += ["context switches only at instrumented accesses to shared memory and at pthread calls (sequentially consistent)"]


def p02(c):
    """Building multi-resolution fields and pyramids: bases and levels of spec/MIPBuildGen.tla, several threads and scheduled."""
    T = c.thorough
    ex = cf.ThreadPoolExecutor(2)
    hs = ex.submit(c.harness, "mip_build", "sched", ["vsched.cpp"], ["-DWITH_SCHED"])
    ha = ex.submit(c.harness, "mip_build", "asan")
    c.model_check("MIPBuildMC", "MIPBuild_deep.cfg" if T else "MIPBuild_mc.cfg", workers=3)
    for name, n, h, ns in (("seq", 3000, ha, 1), ("conc", 320, hs, 8)):
        b = c.simulate("MIPBuildGen", f"MIPBuildGen_{name}.cfg", num=n * (5 if T else 1), depth=10, procs=4)
        for i, x in enumerate(b):
            x["seed"] = c.seed * 100000 + i
            x["ns"] = ns * (4 if T and ns > 1 else 1)
        c.samples.append(dict(kind=name, scenario=b[0]["in"]))
        c.replay(h.result(), b, name, env={"VSCHED_LIMIT": "60000000"})
    c.assumptions += ["filters other than box, minimum, maximum and the first triangle level are held to bounds, not to exact values", "context switches only at instrumented accesses to shared memory and at pthread calls (sequentially consistent)"]
