"""C09: bootstrap error bars and tests of means are the percentile bootstrap of the draws made."""
import math

import numpy as np
import pandas as pd

from vsim import chance, core, loader, ops, refmodel, seams

PID = "C09"
PLAN = {"quick": dict(runs=5000, wall=420, min=600, recheck=48),
        "thorough": dict(runs=120000, wall=3000, min=6000, recheck=300)}
SHRINK = ("ops", "methods", "metrics")
RULE = ("A session of bootstrap calls (boot_weights, boot_EB, boot_test, get_mean_EB_test, get_mean_and_EB, get_test, "
        "loss_summary_table) under real and adversarial draws; each error bar and p-value is recomputed from the recorded "
        "draws. Non-trivial: a finite bootstrap result was compared with a recorded draw. Distinct by digest of inputs and "
        "results.")
REAL = ["mlpaper.boot_util, mlpaper.mlpaper (working tree)", "numpy's generator for the draws that are not steered"]
STUBS = ["numpy.random's global functions: recorded, and in part replaced by adversarial legal draws"]
ASSUMPTIONS = ["bootstrap resampling is drawn through numpy's global functions; a build that draws in a way the recorder cannot "
               "read is only checked for range, granularity and agreement in distribution",
               "round-off: 1e-9 relative, and replicates within 1e-12 of zero count either way unless the data are integers"]
MUST_HIT = ("probe/compared", "probe/weights", "probe/uniform", "probe/table_pairwise", "probe/table_separate", "probe/single_point",
            "probe/infinite_loss", "probe/clipped", "probe/constant", "fault/steered_draw", "fault/draw_one_point",
            "fault/draw_rows_identical", "probe/rejected", "probe/same_draw", "probe/many_points", "probe/tiny_losses",
            "probe/integer_losses")

CONF = (0.95, 0.95, 0.9, 0.5, 0.99, 0.8, 0.75, 0.999, 0.683, 0.9973, 0.954)


def data(spec):
    rs = np.random.RandomState(spec["s"])
    n, kind = spec["n"], spec["kind"]
    if kind == "int":
        x = rs.randint(-3, 4, size=n).astype(float)
    elif kind == "zero_one":
        x = (rs.rand(n) < 0.4).astype(float)
    elif kind == "delta":
        x = rs.randint(-1, 2, size=n).astype(float)
    elif kind == "float":
        x = rs.randn(n) + rs.choice([0.0, 1.0])
    elif kind == "const":
        x = np.full(n, rs.choice([0.0, 1.0, -2.0, 0.1]))
    elif kind == "big":
        x = rs.randn(n) * 1e8
    elif kind == "pos":
        x = rs.rand(n) + 0.01
    elif kind == "outlier":
        x = rs.rand(n)
        x[rs.randint(n)] = 1e4
    elif kind == "inf":
        x = rs.rand(n)
        x[rs.randint(n)] = np.inf
    elif kind in ("tiny", "small"):
        x = (rs.randn(n) + rs.choice([0.0, 1.0, -3.0])) * (1e-10 if kind == "tiny" else 1e-6)
    else:
        raise KeyError(kind)
    if spec.get("dt"):
        x = x != 0 if spec["dt"] == "?" else (np.abs(x) * 10 if spec["dt"][0] == "u" else x * 10).astype(spec["dt"])
    return x


def gen_data(rng):
    out = {"s": rng.randrange(2 ** 31), "n": rng.choice([1, 2, 2, 3, 3, 4, 5, 7, 10, 20]),
           "kind": rng.choice(["int", "zero_one", "delta", "float", "float", "const", "big", "pos", "outlier", "inf", "tiny", "small"])}
    if out["kind"] in ("int", "zero_one", "delta") and rng.random() < 0.4:
        out["dt"] = rng.choice(["?", "u1", "i1", "i4", "i8", "u8"])
    return out


def generate(rng, i, tier):
    if rng.random() < 0.04:
        return {"uniform": True, "seed": rng.randrange(2 ** 32), "n": rng.choice([2, 3, 5, 9])}
    ops = []
    for _ in range(rng.choice([1, 2, 3])):
        k = rng.choice(["weights", "EB", "test", "both", "both", "mean_EB", "get_test", "table", "table"])
        op = {"k": k, "x": gen_data(rng), "conf": rng.choice(CONF), "n_boot": rng.choice([1, 2, 3, 10, 39, 40, 41, 100, 200]),
              "eps": rng.choice([0, 0, 1e-10, 0.5]), "min_EB": rng.choice([0.0, 0.0, 0.0, 0.01]),
              "lim": rng.choice([None, None, "tight", "wide"])}
        if k == "table":
            op["methods"] = rng.sample(["ref", "b", "a", "zz", "twin"], rng.choice([1, 2, 3, 4]))
            op["metrics"] = rng.sample(["m1", "Brier", "zero_one"], rng.choice([1, 1, 2]))
            op["ref"] = rng.choice(op["methods"])
            op["pairwise"] = rng.random() < 0.5
        if rng.random() < 0.012:  # sizes at which an implementation may work in pieces
            op["x"]["n"] = rng.choice([64, 129, 300, 1001, 1500, 2700])
            op["x"]["kind"] = rng.choice(["float", "int", "zero_one", "pos"])
        elif rng.random() < 0.01 and k in ("EB", "test", "weights"):
            op["n_boot"] = rng.choice([999, 1001, 2500, 10007])
        if rng.random() < 0.05:
            op["bad"] = "nan"
            op["x"].pop("dt", None)
        ops.append(op)
    if any(op["x"]["n"] > 50 for op in ops):
        return {"ops": ops, "seed": rng.randrange(2 ** 32), "steer": None}
    return {"ops": ops, "seed": rng.randrange(2 ** 32),
            "steer": {"seed": rng.randrange(10 ** 6), "p": rng.choice([0.5, 1.0])} if rng.random() < 0.5 else None}


def fixup(sc):
    for op in sc.get("ops", []):
        if op["k"] == "table" and (not op["methods"] or not op["metrics"]):
            return None
        if op["k"] == "table" and op["ref"] not in op["methods"]:
            op["ref"] = op["methods"][0]
    return sc if sc.get("ops") or sc.get("uniform") else None


# -- the model ---------------------------------------------------------------------


def replicates(x, w):
    n = len(x)
    xi = [float(v) for v in x]
    if all(v == int(v) and abs(v) < 2 ** 30 for v in xi):
        return [math.fsum(a * b for a, b in zip(xi, row)) / n for row in w.tolist()], 0.0
    out = [math.fsum(a * b for a, b in zip(xi, row)) / n for row in w.tolist()]
    return out, 1e-12 * max(abs(v) for v in xi)


def EB_ok(x, w, conf, EB, clip):
    vals, tol = replicates(x, w)
    mu = refmodel.mean(x)
    s = max(abs(float(v)) for v in x)
    return any(refmodel.close([EB], [clip(max(0.0, c))], 1e-9, 1e-11 * s + 1e-300) for c in refmodel.boot_EB(vals, mu, conf))


def p_ok(x, w, p):
    vals, tol = replicates(x, w)
    lo, hi = refmodel.boot_p(vals, [0.0] * len(vals), tol)
    return lo - 1e-9 <= p <= hi + 1e-9


def judge(run, ch, x, what, n_boot, conf, EB=None, p=None, clip=None, same=True, sets=100):
    """Compare with the recorded draws; EB and p with one and the same draw when same."""
    x = np.asarray(x, dtype=float)
    n = len(x)
    clip = clip or (lambda v: v)
    for v, name in ((EB, "error bar"), (p, "p-value")):
        if v is not None and (np.ndim(v) != 0 or v != v or v < 0 or (name == "p-value" and v > 1)):
            raise core.Violation("range", "%s of %s: %s is %r" % (what, x.tolist(), name, v))
    if n <= 1 or not np.all(np.isfinite(x)):
        run.hit("probe/single_point" if n <= 1 else "probe/infinite_loss")
        if EB is not None and EB != clip(float("inf")):
            raise core.Violation("error-bar", "%s of %s: error bar %r, nothing is known about the scale" % (what, x.tolist(), EB))
        if p is not None and p != 1.0:
            raise core.Violation("p-value", "%s of %s: p-value %r, nothing is known about the scale" % (what, x.tolist(), p))
        return
    if np.ptp(x) == 0:
        run.hit("probe/constant")
    elif np.max(np.abs(x)) < 1e-8:
        run.hit("probe/tiny_losses")
    if n > 1000:
        run.hit("probe/many_points")
    cands = chance.weight_candidates(ch, n, n_boot)
    if not cands:
        drawn = chance.wrong_count(ch, n, n_boot, sets)
        if drawn is not None:
            raise core.Violation("replicates", "%s: %d resamples were drawn, not %d" % (what, drawn, n_boot))
        run.hit("probe/unreadable_draw")
        far = float(np.max(np.abs(x - np.mean(x)))) * (1 + 1e-9) + 1e-12 * float(np.max(np.abs(x)))
        if EB is not None and EB > clip(far) + 1e-12 + 1e-9 * float(np.max(np.abs(x))):
            raise core.Violation("error-bar", "%s of %s: error bar %r, no resample is further than %r" % (what, x.tolist(), EB, far))
        return
    run.hit("probe/compared")
    run.nontrivial = True
    okE = [EB is None or EB_ok(x, w, conf, EB, clip) for w in cands]
    okp = [p is None or p_ok(x, w, p) for w in cands]
    if EB is not None and not any(okE):
        w = cands[-1]
        raise core.Violation("error-bar", "%s of %s (confidence %g, %d replicates): error bar %r; the last draw gives %s" % (
            what, x.tolist(), conf, n_boot, EB, [clip(v) for v in refmodel.boot_EB(replicates(x, w)[0], refmodel.mean(x), conf)]))
    if p is not None and not any(okp):
        vals, tol = replicates(x, cands[-1])
        raise core.Violation("p-value", "%s of %s (%d replicates): p-value %r; the last draw gives %s" % (
            what, x.tolist(), n_boot, p, refmodel.boot_p(vals, [0.0] * len(vals), tol)))
    if EB is not None and p is not None and same:
        if not any(a and b for a, b in zip(okE, okp)):
            raise core.Violation("incoherent-draws", "%s of %s: error bar %r and p-value %r come from different draws" % (
                what, x.tolist(), EB, p))
        run.hit("probe/same_draw")


def limits(op, x):
    f = x[np.isfinite(x)] if np.isfinite(x).any() else np.zeros(1)
    lo, hi = float(f.min()), float(f.max())
    if not np.all(np.isfinite(x)):
        return (min(0.0, lo), float("inf"))
    if op["lim"] == "tight":
        return lo, hi
    if op["lim"] == "wide":
        d = 1.0 + hi - lo
        return lo - d, hi + d
    return -float("inf"), float("inf")


def clipper(run, mu, lower, upper, min_EB):
    def clip(EB):
        out = refmodel.clip_EB(mu, EB, lower, upper, min_EB)
        if out != EB:
            run.hit("probe/clipped")
        return out
    return clip


def execute(sc, run):
    if sc.get("uniform"):
        return uniform(sc, run)
    proc = seams.Proc("p", None, {}, entropy="c09")
    with seams.use(proc), np.errstate(all="ignore"):
        lib = loader.fresh()
        np.random.seed(sc["seed"])
        for k, op in enumerate(sc["ops"]):
            steer = dict(sc["steer"], seed="%s/%d" % (sc["steer"]["seed"], k)) if sc["steer"] else None
            ch = proc.chance = chance.Chance(steer)
            one(lib, op, "op %d" % k, ch, run)
            if ch.steered:
                run.hit("fault/steered_draw")
            for pat, v in ch.patterns.items():
                run.hit("fault/draw_" + pat, v)
    run.simtime = proc.elapsed()


def one(lib, op, what, ch, run):
    c, kind, conf = lib.core, op["k"], op["conf"]
    if kind == "weights":
        return weights(lib, op, what, ch, run)
    if kind == "table":
        return table(lib, op, what, ch, run)
    x = data(op["x"])
    if op.get("bad"):
        x = x.copy()
        x[0] = np.nan
        for f in (lambda: c.boot_EB(x), lambda: c.boot_test(x), lambda: c.get_mean_EB_test(x, method="boot")):
            try:
                r = f()
            except Exception:
                continue
            raise core.Violation("nan-accepted", "%s: a NaN loss gave %r" % (what, r))
        run.hit("probe/rejected")
        return
    if op["x"].get("dt"):
        run.hit("probe/integer_losses")
    lower, upper = limits(op, x)
    keep = x.copy()
    mu = refmodel.mean(x)
    min_EB = op["min_EB"] if 2 * op["min_EB"] <= upper - lower and op["min_EB"] <= refmodel.clip_EB(
        mu, float("inf"), lower, upper) else 0.0
    cl = clipper(run, mu, lower, upper, min_EB)
    ckw = {} if conf == 0.95 else {"confidence": conf}  # 0.95 is the documented default
    try:
        if kind == "EB":
            EB, p, m, n_boot, cl = c.boot_EB(x, n_boot=op["n_boot"], **ckw), None, None, op["n_boot"], None
        elif kind == "test":
            EB, p, m, n_boot = None, c.boot_test(x, n_boot=op["n_boot"]), None, op["n_boot"]
        elif kind == "both":
            m, EB, p = c.get_mean_EB_test(x, min_EB=min_EB, lower=lower, upper=upper, method="boot", **ckw)
            n_boot = getattr(c, "N_BOOT", 1000)
        elif kind == "mean_EB":
            (m, EB), p = c.get_mean_and_EB(x, min_EB=min_EB, lower=lower, upper=upper, method="boot", **ckw), None
            n_boot = getattr(c, "N_BOOT", 1000)
        else:
            EB, p, m, n_boot = None, c.get_test(x, lower, upper, method="boot"), None, getattr(c, "N_BOOT", 1000)
    except Exception as e:
        raise core.Violation("failed", "%s: %s of %s (confidence %g, limits %s) raised %s: %s" % (
            what, kind, x.tolist(), conf, (lower, upper), type(e).__name__, e))
    if not np.array_equal(x, keep):
        raise core.Violation("input-changed", "%s: %s changed its data" % (what, kind))
    if m is not None and not refmodel.close([m], [mu], 1e-9, 1e-9):
        raise core.Violation("mean", "%s: mean of %s is %r" % (what, x.tolist(), m))
    run.log(kind, op["x"], EB, p)
    judge(run, ch, x, "%s: %s" % (what, kind), n_boot, conf, EB, p, cl, sets=2)


def weights(lib, op, what, ch, run):
    n, B, eps = op["x"]["n"], op["n_boot"], op["eps"]
    try:
        w = lib.boot_util.boot_weights(n, B, epsilon=eps)
    except Exception as e:
        raise core.Violation("failed", "%s: boot_weights(%d, %d, %r) raised %s" % (what, n, B, eps, e))
    run.hit("probe/weights")
    run.log("weights", n, B, eps, np.asarray(w).tolist())
    if np.shape(w) != (B, n):
        raise core.Violation("weights", "%s: boot_weights(%d, %d) has shape %s" % (what, n, B, np.shape(w)))
    if not np.all(w >= eps):
        raise core.Violation("weights", "%s: boot_weights below epsilon: %r" % (what, w.min()))
    counts = np.where(w == eps, np.round(eps * 0), w) if eps else w
    if not (np.all(counts == np.round(counts)) and np.all(counts >= 0) and np.all(counts.sum(axis=1) == n)):
        raise core.Violation("weights", "%s: boot_weights(%d, %d, %r) is no resample of %d points: %s" % (
            what, n, B, eps, n, w[:3].tolist()))
    cands = chance.weight_candidates(ch, n, B)
    if cands and not any(np.array_equal(c, counts) for c in cands):
        raise core.Violation("weights", "%s: boot_weights(%d, %d) is not what was drawn" % (what, n, B))


def table(lib, op, what, ch, run):
    cols, parts = [], []
    n = op["x"]["n"]
    lim, x = {}, {}
    for j, metric in enumerate(op["metrics"]):
        for m, name in enumerate(op["methods"]):
            v = data(dict(op["x"], dt=None, s=(op["x"]["s"] + 97 * m + 7919 * j) % 2 ** 31, kind=op["x"]["kind"] if op["x"]["kind"] != "inf" else "pos"))
            if name == "twin" and (metric, op["ref"]) in x:
                v = x[metric, op["ref"]].copy()
            x[metric, name] = v
            cols.append((metric, name))
            parts.append(v)
        allv = np.concatenate([x[metric, nm] for nm in op["methods"]])
        if op["lim"]:
            lim[metric] = limits(op, allv)
    if op["x"]["kind"] == "inf" and op["ref"] != op["methods"][-1]:
        x[op["metrics"][0], op["methods"][-1]][0] = np.inf
        lim.pop(op["metrics"][0], None)
    tbl = pd.DataFrame(np.stack(parts, axis=1), columns=pd.MultiIndex.from_tuples(cols, names=["metric", "method"]))
    try:
        r = lib.core.loss_summary_table(tbl, op["ref"], method_EB="boot", **ops.spare(dict(
            pairwise_CI=op["pairwise"], confidence=op["conf"], limits=lim), **ops.SUMMARY_DEFAULTS))
    except Exception as e:
        raise core.Violation("failed", "%s: loss_summary_table(boot) raised %s: %s on\n%s" % (what, type(e).__name__, e, tbl))
    run.log("table", op["x"], r.values.tolist())
    B = getattr(lib.core, "N_BOOT", 1000)
    inf = float("inf")
    for metric in op["metrics"]:
        lower, upper = lim.get(metric, (-inf, inf))
        ref = x[metric, op["ref"]]
        for name in op["methods"]:
            v = x[metric, name]
            mu, EB, p = [float(q) for q in r.loc[name, metric][["mean", "error", "p"]]]
            w = "%s: %s/%s%s" % (what, metric, name, " - %s" % op["ref"])
            if not refmodel.close([mu], [refmodel.mean(v)], 1e-9, 1e-9):
                raise core.Violation("mean", "%s: mean of %s is %r" % (w, v.tolist(), mu))
            if name == op["ref"]:
                if p == p or (op["pairwise"] and EB == EB):
                    raise core.Violation("reference", "%s: the reference has error %r, p %r" % (w, EB, p))
                if not op["pairwise"]:
                    judge(run, ch, v, w, B, op["conf"], EB, None, clipper(run, refmodel.mean(v), lower, upper, 0.0))
                continue
            d = v - ref
            rng_ = upper - lower
            if op["pairwise"]:
                run.hit("probe/table_pairwise")
                judge(run, ch, d, w, B, op["conf"], EB, p, clipper(run, refmodel.mean(d), -rng_, rng_, 0.0))
            else:
                run.hit("probe/table_separate")
                judge(run, ch, v, w, B, op["conf"], EB, None, clipper(run, refmodel.mean(v), lower, upper, 0.0))
                judge(run, ch, d, w, B, op["conf"], None, p)


def uniform(sc, run):
    """Real draws: every point as likely as any other, points and replicates independent (Hoeffding at 1e-13 each)."""
    n = sc["n"]
    proc = seams.Proc("p", None, {}, entropy="c09u")
    with seams.use(proc):
        lib = loader.fresh()
        np.random.seed(sc["seed"])
        T = 20000
        w = np.concatenate([lib.boot_util.boot_weights(n, T // 4) for _ in range(4)])
        # a small sample's error bar is the bootstrap's, in distribution too
        x = np.arange(n, dtype=float)
        many = [float(lib.core.boot_test(x - 0.3, n_boot=200)) for _ in range(40)]
        blocks = [np.array(lib.boot_util.boot_weights(12, 8)).tobytes() for _ in range(3)]
    run.hit("probe/uniform")
    run.nontrivial = True
    run.log("uniform", n, w.sum(axis=0).tolist())
    t = math.sqrt(math.log(2e13) / (2.0 * T))
    q = (1.0 - 1.0 / n) ** n
    zero = (w == 0)
    for i in range(n):
        if abs(zero[:, i].mean() - q) > t:
            raise core.Violation("not-uniform", "point %d of %d is left out of %.4f of %d resamples, expected %.4f" % (i, n, zero[:, i].mean(), T, q))
        if abs(w[:, i].mean() / n - 1.0 / n) > t:
            raise core.Violation("not-uniform", "point %d of %d has mean weight %.4f in %d resamples" % (i, n, w[:, i].mean(), T))
        for j in range(i):
            if abs((zero[:, i] & zero[:, j]).mean() - (1.0 - 2.0 / n) ** n) > t:
                raise core.Violation("not-uniform", "points %d and %d of %d are left out together too often or too rarely" % (i, j, n))
        rep = (zero[::2, i] & zero[1::2, i]).mean()
        if abs(rep - q * q) > t * math.sqrt(2):
            raise core.Violation("not-uniform", "replicates in a row repeat each other at point %d" % i)
    if len(set(blocks)) < 3:
        raise core.Violation("not-uniform", "two calls in a row drew the same resamples")
    # exact tail probability of a replicate mean <= 0, by enumeration
    if n <= 3:
        import itertools

        tot = le = ge = 0
        for pick in itertools.product(range(n), repeat=n):
            s = sum(x[list(pick)]) - 0.3 * n
            tot += 1
            le += s <= 0
            ge += s >= 0
        want = min(1.0, 2.0 * min(le, ge) / tot)
        got = sum(many) / len(many)
        # p is twice a frequency of 200 draws, averaged over 40 calls; |bias| of min() and the cap is largest at 1
        if abs(got - want) > 2 * math.sqrt(math.log(2e13) / (2.0 * 8000)) + (0.1 if want > 0.8 else 0.0):
            raise core.Violation("not-uniform", "boot_test of %s: mean p-value %.4f over 40 calls, expected %.4f" % ((x - 0.3).tolist(), got, want))
