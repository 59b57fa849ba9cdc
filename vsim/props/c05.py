"""C05: concurrent callers do not disturb each other."""
import decimal
import os

import joblib
import numpy as np

from vsim import ambient, core, loader, ops, sched, seams

PID = "C05"
PLAN = {"quick": dict(runs=4000, wall=420, min=300, recheck=64), "thorough": dict(runs=60000, wall=3000, min=3000, recheck=300)}
SHRINK = ("tasks", "ops", "gaps", "picks", "breaks")
RULE = ("Seeded sets of two to four simulated threads, each making one to three calls over the whole API, some on shared "
        "input tables, interleaved at every line or bytecode instruction of library code and every party call, as the "
        "seeded preemption list says. Non-trivial: at least one switch between two unfinished calls. Distinct by the "
        "digest of the switch trace.")
REAL = ["the whole mlpaper package (working tree)", "numpy, pandas, scipy, decimal", "real threads, released one at a time"]
STUBS = ["the choice of which thread runs (seeded scheduler)", "estimators and metrics (parties)", "clock, entropy, locks"]
ASSUMPTIONS = ["third-party calls (numpy, pandas, scipy) are atomic: threads are switched in library code and parties only",
               "what a random call draws while others draw too is not compared, only the part no draw can change"]
MUST_HIT = ("probe/switched_inside_calls", "probe/shared_inputs", "probe/same_call_twice", "probe/random_call",
            "probe/ambient_differs", "probe/breakpoints", "probe/with_checkpoint_directory")


def generate(rng, i, tier):
    mode = rng.choice(["line", "line", "line", "instr"])
    kinds = [k for k in ops.OPS if k != "clf_bench" or rng.random() < 0.1]
    if rng.random() < 0.4:  # swarm: a few kinds only, so that calls meet themselves
        kinds = rng.sample(kinds, rng.choice([1, 2, 3]))
    tasks = []
    pool = []
    for t in range(rng.choice([2, 2, 2, 3, 4])):
        mine = []
        for _ in range(rng.choice([1, 1, 2, 3]) if mode == "line" else 1):
            if pool and rng.random() < 0.35:
                o = dict(rng.choice(pool))
                if rng.random() < 0.3:
                    o["s"] = o["s"] + rng.choice([1, 2, 3, 6])
            else:
                o = ops.gen(rng, kinds)
            o["shared"] = rng.random() < 0.5
            o.pop("verbose", None)
            if o["k"] in ("clf_pred", "reg_pred") and rng.random() < 0.4:
                o["ck"] = True
            pool.append(o)
            mine.append(o)
        amb = {}
        if rng.random() < 0.5:
            amb = rng.choice([{"prec": 24}, {"prec": 60}, {"rounding": "ROUND_DOWN"}, {"rounding": "ROUND_UP"}, {"np_err": "ignore"}])
        tasks.append({"ops": mine, "ambient": amb})
    n = rng.choice([1, 2, 3, 5, 10, 30])
    top = rng.choice([5, 40, 200, 800]) * (8 if mode == "instr" else 1)
    sc = {"mode": mode, "tasks": tasks, "gaps": [rng.randrange(top) for _ in range(n)],
          "picks": [rng.randrange(6) for _ in range(n + 8)]}
    if mode == "line" and rng.random() < 0.6:
        if rng.random() < 0.7:  # two calls of one kind, so that they meet at these lines
            kind = rng.choice(kinds)
            a = dict(ops.gen(rng, [kind]), shared=rng.random() < 0.5)
            b = dict(a) if rng.random() < 0.4 else dict(ops.gen(rng, [kind]), shared=False)
            for o in (a, b):
                o.pop("verbose", None)
                if kind in ("clf_pred", "reg_pred") and rng.random() < 0.4:
                    o["ck"] = True
            sc["tasks"] = [{"ops": [a], "ambient": tasks[0]["ambient"]}, {"ops": [b], "ambient": tasks[1]["ambient"]}]
        # threads change at every visit of a few lines, chosen among those the calls reach, however short their stay there
        # (a number below zero: all lines of one function; -1: all lines of all)
        sc.update(gaps=[], breaks=[[-1 - rng.randrange(10 ** 6)] if rng.random() < 0.4 else [-1] if rng.random() < 0.05 else
                                   [rng.randrange(10 ** 6) for _ in range(rng.choice([1, 1, 2, 3, 6]))] for _ in range(rng.choice([1, 4, 8]))],
                  bits=rng.choice([0xFFFF, 0xFFFF, rng.randrange(1, 2 ** 16)]))
    return sc


def _solo(o, reached=None):
    """The call alone, in a process of its own."""
    proc = seams.Proc("solo", None, {}, entropy=7)
    with seams.use(proc):
        lib = loader.fresh()
        np.random.seed(99)
        if reached is not None:
            proc.line_hook = lambda code, where: reached.setdefault((code.co_filename, where), (code.co_filename, code.co_firstlineno))
        try:
            r = ops.call(lib, o, ops.build(o))
        except Exception as e:
            return ("error", type(e).__name__)
        return ("ok", ambient.fp(ops.det_part(o, r)) if ops.is_random(o) else ambient.fp(r))


def execute(sc, run):
    reached = None
    if sc.get("breaks"):
        reached = {}
        sched.monitor("line")
    want = [[_solo(o, reached) for o in t["ops"]] for t in sc["tasks"]]
    sched.monitor(None)
    if not reached:
        together(sc, run, want, {})
        return
    order, inter = list(reached), []
    for breaks in sc["breaks"]:
        run.hit("probe/breakpoints")
        together(sc, run, want, {at: 0 for b in breaks for at in places(b, order, reached)})
        inter.append(run.inter)
    run.inter = inter


def places(b, order, reached):
    if b >= 0:
        return [order[b % len(order)]]
    functions = sorted(set(reached.values()))
    chosen = functions if b == -1 else [functions[-b % len(functions)]]
    return [at for at in order if reached[at] in chosen]


def together(sc, run, want, stops):
    """The calls at the same time; threads change as `gaps` says and at every visit of a line in `stops`."""
    ambient.reset()
    os.chdir(core.scratch_dir())
    sch = sched.Sched(sc["gaps"], sc["picks"])
    disk = None
    if any(o.get("ck") for t in sc["tasks"] for o in t["ops"]):
        disk = seams.Disk(core.scratch_dir())
        run.hit("probe/with_checkpoint_directory")
    main = seams.Proc("main", disk, {}, entropy=1)
    with seams.use(main):
        lib = loader.fresh()
    getattr(joblib.memory, "_FUNCTION_HASHES", {}).clear()  # a fresh process (see hist.call)
    shared = {}
    inputs = []
    live = [0]
    seen = set()
    inside = [None] * len(sc["tasks"])

    def hook(code, where):
        proc = seams.current()
        proc.sched.yield_point("code")
        if (code.co_filename, where) in stops:
            v = stops[(code.co_filename, where)]
            stops[(code.co_filename, where)] = v + 1
            if v < 64 and sc["bits"] >> (v % 16) & 1:
                proc.sched.preempt()

    def task(k, t, proc):
        def fn():
            ambient.perturb(t["ambient"])
            out = []
            before = (ambient._freeze(ambient._ctx(decimal.getcontext())), tuple(sorted(np.geterr().items())))
            for j, o in enumerate(t["ops"]):
                key = repr(sorted((x, repr(v)) for x, v in o.items() if x != "shared"))
                if o["shared"] and "h" not in o:
                    if key in shared:
                        run.hit("probe/shared_inputs")
                    else:
                        a = ops.build(o)
                        shared[key] = a
                        inputs.append((key, a, ambient.fp_in(a)))
                    a = shared[key]
                else:
                    a = ops.build(o)
                    inputs.append((key, {x: v for x, v in a.items() if x != "methods"},
                                   ambient.fp_in({x: v for x, v in a.items() if x != "methods"})))
                if key in seen:
                    run.hit("probe/same_call_twice")
                seen.add(key)
                inside[k] = o["k"]
                proc.line_hook = hook
                try:
                    r = ("ok", ops.call(lib, dict(o, ckpt=os.path.join(disk.root, "ckpt")) if o.get("ck") else o, a))
                except Exception as e:
                    r = ("error", type(e).__name__, e)
                finally:
                    proc.line_hook = None
                inside[k] = None
                if r[0] == "ok":
                    r = ("ok", ambient.fp(ops.det_part(o, r[1])) if ops.is_random(o) else ambient.fp(r[1]))
                out.append(r)
                if ops.is_random(o):
                    run.hit("probe/random_call")
            after = (ambient._freeze(ambient._ctx(decimal.getcontext())), tuple(sorted(np.geterr().items())))
            return out, before == after, (before, after)
        return fn

    before = ambient.snapshot(lib, rng=False)
    sched.monitor(sc["mode"])
    procs = []
    for k, t in enumerate(sc["tasks"]):
        proc = seams.Proc("t%d" % k, disk, {}, entropy=k)
        procs.append(proc)
        sch.add(proc, task(k, t, proc))
        if t["ambient"]:
            run.hit("probe/ambient_differs")
    orig = sch._switch

    def switch(a, b):
        if inside[a.idx] and inside[b.idx]:
            run.hit("probe/switched_inside_calls")
            run.nontrivial = True
        orig(a, b)

    sch._switch = switch
    sch.run()
    sched.monitor(None)
    run.inter = (sc["mode"], sch.trace, [[o["k"] for o in t["ops"]] for t in sc["tasks"]])
    run.hit("fault/preemption", sch.switches)
    run.simtime += float(sum(p.elapsed() for p in procs))
    if sch.deadlock:
        raise core.Violation("deadlock", "the threads block each other; switches %r" % (sch.trace[-6:],))
    after = ambient.snapshot(lib, rng=False)
    for k, t in enumerate(sch.tasks):
        if t.error is not None:
            if isinstance(t.error, sched.Deadlock):
                raise core.Violation("deadlock", str(t.error))
            raise t.error
        out, same, what = t.result
        for j, (got, exp) in enumerate(zip(out, want[k])):
            o = sc["tasks"][k]["ops"][j]
            run.log(k, j, o["k"], got[0], repr(got[1])[:2000])
            if got[0] != exp[0]:
                raise core.Violation("outcome-differs", "thread %d call %d (%s): %s, but alone it gives %s" % (
                    k, j, o["k"], got, exp if exp[0] == "error" else exp[0]))
            if got[0] == "ok" and got[1] != exp[1]:
                raise core.Violation("result-differs", "thread %d call %d (%s): the result is not the one the call gives "
                                     "alone\n%s\n%s" % ((k, j, o["k"]) + _where(got[1], exp[1])))
        if not same:
            raise core.Violation("thread-state-leak", "thread %d: ambient state changed %r" % (k, what))
    for key, a, f in inputs:
        if ambient.fp_in(a) != f:
            raise core.Violation("input-modified", "inputs of %s were modified" % key[:300])
    d = ambient.diff(before, after)
    if d:
        raise core.Violation("global-state-leak", "after all calls: %s changed" % ", ".join(d))
    run.log(sch.trace)


def _where(a, b):
    """The first place two fingerprints differ."""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return _where(x, y)
    return repr(a)[:300], repr(b)[:300]
