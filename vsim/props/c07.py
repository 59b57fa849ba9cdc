"""C07: with the same seed, the same calls give the same results, whatever else happened."""
import hashlib
import json
import os
import random
import subprocess
import tempfile
import threading

import numpy as np

from vsim import ambient, core, loader, ops, seams

PID = "C07"
PLAN = {"quick": dict(runs=3000, wall=420, min=300, recheck=48, cross=120),
        "thorough": dict(runs=50000, wall=3000, min=3000, recheck=300, cross=1500)}
SHRINK = ("ops", "history", "between", "methods")
RULE = ("A seeded list of calls over the whole API is made after np.random.seed in a fresh simulated process, and again in "
        "another: with other OS entropy, clock, uuids, thread, Python random state and ambient settings, after a history "
        "of other (also failing) calls, with other deterministic calls in between; and, for a sample, in interpreters "
        "with another hash seed. Non-trivial: at least one randomised call. Distinct by digest of the results.")
REAL = ["the whole mlpaper package (working tree)", "numpy's global generator", "real interpreters for the hash seeds"]
STUBS = ["OS entropy, clock, uuid (seeded)", "estimators and metrics (parties)"]
ASSUMPTIONS = ["the caller seeds numpy's global generator, the only one the library documents",
               "one caller at a time draws from it (C05 covers concurrent callers)"]
MUST_HIT = ("probe/random_call", "probe/history_before", "probe/other_thread", "probe/failed_history", "probe/det_between",
            "probe/seed_matters")
cross_stats = {}


def generate(rng, i, tier):
    kinds = [k for k in ops.OPS if k != "clf_bench" or rng.random() < 0.2]
    rk = [k for k in kinds if ops.OPS[k].rand]
    mine = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        mine.append(ops.gen(rng, rk if rng.random() < 0.65 else kinds))
    hist = [dict(ops.gen(rng, kinds), fail=rng.random() < 0.3) for _ in range(rng.choice([0, 1, 2, 3]))]
    if rng.random() < 0.4 and hist:  # the same calls before, perhaps with one other thing changed
        hist.append(dict(rng.choice(mine), fail=False))
    return {"seed": rng.randrange(2 ** 32), "ops": mine, "history": hist,
            "between": [ops.gen(rng, kinds, rand=False) for _ in range(rng.choice([0, 0, 1, 2]))],
            "entropy": rng.randrange(10 ** 6), "clock": rng.choice([0.0, 1e9, 4e9]), "thread": rng.random() < 0.3,
            "pyseed": rng.randrange(10 ** 6), "vary": rng.choice(VARY),
            "ambient": rng.choice([{}, {}, {"prec": 40}, {"rounding": "ROUND_DOWN"}, {"pd": {"display.precision": 2}}])}


def session(sc, proc, history, between, out):
    with seams.use(proc), core.quiet():
        lib = loader.fresh()
        for o in history:
            def party(what, who):
                raise RuntimeError("injected")
            proc.party = party if o.get("fail") else None
            try:
                ops.call(lib, o, ops.build(o))
            except Exception:
                pass
            finally:
                proc.party = None
        np.random.seed(sc["seed"])
        for k, o in enumerate(sc["ops"]):
            pre = ambient.rng_state()
            pypre = random.getstate()
            try:
                r = ("ok", ambient.fp(ops.call(lib, o, ops.build(o))))
            except Exception as e:
                r = ("error", type(e).__name__)
            st = ambient.rng_state()
            out.append((o["k"], r, hashlib.sha256(repr(st).encode()).hexdigest()))
            if not ops.is_random(o) and st != pre:
                raise core.Violation("deterministic-call-draws", "call %d (%s) moved the random stream" % (k, o["k"]))
            if random.getstate() != pypre:
                raise core.Violation("python-random-touched", "call %d (%s) moved Python's random stream" % (k, o["k"]))
            for b in between:
                pre = ambient.rng_state()
                try:
                    ops.call(lib, b, ops.build(b))
                except Exception:
                    pass
                if ambient.rng_state() != pre:
                    raise core.Violation("deterministic-call-draws", "call (%s) moved the random stream" % b["k"])
    return lib


VARY = ("boot_weights", "split_column", "split_index", "split_groups", "noise", "rand_mask", "rand_subset", "boot_EB", "boot_test",
        "mean_EB_test", "summary_boot", "curve_boot", "curve_table", "summary_table")


def vary(lib, which, seed):
    """A call whose results, under different seeds and when repeated, cannot all be equal; what is wrong, or None."""
    import pandas as pd

    df = pd.DataFrame({"a": np.arange(24), "b": np.arange(24) // 2})
    x = np.arange(24.0)
    z = np.sin(np.arange(1, 61.0))
    lp = np.log(np.stack([np.cos(np.arange(1.0, 61)) ** 2 + 0.01, np.sin(np.arange(1.0, 61)) ** 2 + 0.01], axis=1))
    lp = lp - np.log(np.sum(np.exp(lp), axis=1, keepdims=True))
    y = (np.arange(60) * 7 % 13) % 2
    tbl = pd.DataFrame(np.concatenate([lp, lp[::-1]], axis=1), columns=pd.MultiIndex.from_product([["m", "n"], [0, 1]]))
    lt = pd.DataFrame({("L", "m"): z, ("L", "n"): z[::-1] * 0.5})
    lt.columns.names = ["metric", "method"]
    roc = {"AUC": lib.perf_curves.roc_curve}
    f = {"boot_weights": lambda: lib.boot_util.boot_weights(12, 6),
         "split_column": lambda: lib.data_splitter.split_df(df, {"a": ("random", 0.5)})[0],
         "split_index": lambda: lib.data_splitter.split_df(df, {None: ("random", 0.5)})[0],
         "split_groups": lambda: lib.data_splitter.split_df(df, {"b": ("random", 0.5)})[0],
         "noise": lambda: lib.util.epsilon_noise(x),
         "rand_mask": lambda: lib.data_splitter.rand_mask(24, 0.5),
         "rand_subset": lambda: lib.data_splitter.rand_subset(df["a"].values, 0.5),
         "boot_EB": lambda: lib.core.boot_EB(z),
         "boot_test": lambda: [lib.core.boot_test(z + d) for d in (0.0, 0.05, 0.1, 0.15, 0.2)],
         "mean_EB_test": lambda: lib.core.get_mean_EB_test(z, method="boot"),
         "summary_boot": lambda: lib.core.loss_summary_table(lt, "m", method_EB="boot"),
         "curve_boot": lambda: lib.classification.curve_boot(y, lp, ref=0.5, n_boot=60),
         "curve_table": lambda: lib.classification.curve_summary_table(tbl, y, roc, "m", n_boot=60),
         "summary_table": lambda: lib.classification.summary_table(tbl, y, {"NLL": lib.classification.log_loss}, roc, "m", n_boot=60)}[which]
    first, second = [], []
    for s in range(4):
        np.random.seed((seed + s) % 2 ** 32)
        first.append(ambient.fp(f()))
        second.append(ambient.fp(f()))
    if which == "boot_weights" and all(len(set(r.tobytes() for r in w)) == 1 for w in [f() for _ in range(4)]):
        return "all resamples of a call are the same"
    if len(set(first)) == 1:
        return "four seeds (from %d on) give one and the same random result" % seed
    if len(set(second)) == 1:
        return "after a first call, four seeds (from %d on) give one and the same random result" % seed
    if first == second:
        return "a second call draws what the first one drew"
    return None


def execute(sc, run):
    a, b = [], []
    pa = seams.Proc("a", None, {}, entropy="a", clock=1e9)
    session(sc, pa, [], [], a)
    ambient.reset()
    random.seed(sc["pyseed"])
    pb = seams.Proc("b", None, {}, entropy=sc["entropy"], clock=sc["clock"])
    if sc["history"]:
        run.hit("probe/history_before")
    if any(o.get("fail") for o in sc["history"]):
        run.hit("probe/failed_history")
    if sc["between"]:
        run.hit("probe/det_between")
    run.hit("fault/other_entropy")
    run.hit("fault/clock_jump")
    if sc["thread"]:
        run.hit("probe/other_thread")
        err = []

        def fn():
            try:
                ambient.perturb(sc["ambient"])
                session(sc, pb, sc["history"], sc["between"], b)
            except BaseException as e:
                err.append(e)

        t = threading.Thread(target=fn)
        t.start()
        t.join()
        if err:
            raise err[0]
    else:
        ambient.perturb(sc["ambient"])
        session(sc, pb, sc["history"], sc["between"], b)
    for k, (x, y) in enumerate(zip(a, b)):
        run.log(x[0], x[1][0], x[2])
        if ops.is_random(sc["ops"][k]):
            run.hit("probe/random_call")
            run.nontrivial = True
        if x[1] != y[1]:
            raise core.Violation("not-reproducible", "call %d (%s): same seed, other result (after history %s)\n%s\n%s" % (
                k, x[0], [o["k"] for o in sc["history"]], *_where(x[1], y[1])))
        if x[2] != y[2]:
            raise core.Violation("stream-position", "call %d (%s): same seed, but the random stream was left elsewhere" % (k, x[0]))
    with seams.use(seams.Proc("v", None, {}, entropy=sc["entropy"])):
        lib = loader.fresh()
        wrong = vary(lib, sc["vary"], sc["seed"])
        if wrong:
            raise core.Violation("seed-ignored", "%s: %s" % (sc["vary"], wrong))
        run.hit("probe/seed_matters")
    run.simtime = pa.elapsed() + abs(pb.elapsed())
    run.results = hashlib.sha256(repr(a).encode()).hexdigest()
    run.log(run.results)


def _where(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return _where(x, y)
    return repr(a)[:300], repr(b)[:300]


def _results(scs, hashseed):
    fd, path = tempfile.mkstemp(suffix=".json")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump(scs, f)
        p = subprocess.run([os.path.join(core.VERIF, "check"), "results", PID, path], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, env=dict(os.environ, PYTHONHASHSEED=str(hashseed)), timeout=600)
    finally:
        os.unlink(path)
    out = [json.loads(line[7:]) for line in p.stdout.decode().splitlines() if line.startswith("RESULT ")]
    if p.returncode != 0 or len(out) != len(scs):
        raise RuntimeError("results: rc %d, %d of %d\n%s" % (p.returncode, len(out), len(scs), p.stderr.decode()[-2000:]))
    return out


def cross(scs, spec):
    base = _results(scs, spec["base"])
    other = _results(scs, spec["other"])
    for k, (x, y) in enumerate(zip(base, other)):
        if x[1] is None and y[1] is None and x[0] != y[0]:
            return k, ("hash-seed", "the results differ between PYTHONHASHSEED=%d and %d" % (spec["base"], spec["other"]))
    return None


def cross_check(seed, tier, sample, nworkers):
    from concurrent.futures import ThreadPoolExecutor

    scs = [generate(core.rng_for(seed, PID, i), i, tier) for i in sample]
    chunks = [list(range(k, len(scs), max(1, nworkers))) for k in range(max(1, nworkers))]
    chunks = [c for c in chunks if c]
    hs = [1 + (seed * 7 + k * 13) % 4000 for k in range(len(chunks))]
    with ThreadPoolExecutor(max(1, nworkers // 2)) as ex:
        res = list(ex.map(lambda p: cross([scs[j] for j in p[0]], {"base": 0, "other": p[1]}), zip(chunks, hs)))
    cross_stats.update(scenarios=len(scs), hash_seeds=[0] + hs)
    for c, h, r in zip(chunks, hs, res):
        if r is not None:
            return sample[c[r[0]]], r[1], {"base": 0, "other": h}
    return None
