"""C11: error bars and p-values never contradict each other, whatever is drawn."""
import numpy as np
import pandas as pd

from vsim import chance, core, loader, ops, seams
from vsim.props import c09, c10

PID = "C11"
PLAN = {"quick": dict(runs=10000, wall=420, min=600, recheck=48),
        "thorough": dict(runs=120000, wall=3000, min=6000, recheck=300)}
SHRINK = ("ops", "methods", "metrics")
RULE = ("A session of tests and error bars of every method (t, Bernstein, bootstrap; means, tables, curves, the bootstrap helpers) "
        "under real and adversarial draws, with effects placed near the decision boundary; the pairs (effect, error bar, p-value) "
        "must agree. Non-trivial: an effect larger than its error bar, or a bootstrap result. Distinct by digest of the results.")
REAL = ["mlpaper.mlpaper, boot_util, classification, perf_curves, util (working tree)", "scipy.stats"]
STUBS = ["numpy.random's global functions: recorded, and in part replaced by adversarial legal draws"]
ASSUMPTIONS = ["effects within 1e-6 (relative) of the error bar may go either way",
               "coherence is claimed where error bar and test are of the same quantity: zero-symmetric limits, paired tables, "
               "curve areas against a scalar or paired"]
MUST_HIT = ("probe/significant", "probe/not_significant", "probe/near_boundary", "probe/identical", "probe/t", "probe/bernstein",
            "probe/boot", "probe/curve", "probe/helpers", "probe/table", "probe/confidence_pair", "fault/steered_draw", "probe/ranking_equal", "probe/many_quantities")


def gen_op(rng):
    k = rng.choice(["mean", "mean", "table", "curve", "curve", "helpers", "helpers"])
    op = {"k": k, "conf": rng.choice([0.95, 0.9, 0.5, 0.99, 0.8, 0.75, 0.6, 0.999, 0.05, 0.954, 0.9973, 0.904]), "s": rng.randrange(2 ** 31),
          "method": rng.choice(["t", "bernstein", "boot", "boot"])}
    if k == "mean":
        op.update(n=rng.choice([1, 2, 3, 4, 5, 8, 12, 30]), kind=rng.choice(["int", "delta", "float", "float", "const", "pos", "outlier"]),
                  aim=rng.choice([None, None, 1.01, 0.99, 1.5, 0.5, 3.0]), lim=rng.choice(["sym", "sym", "inf", "half"]),
                  scale=rng.choice([0, 0, 0, -40, -60, 30]))
    elif k == "table":
        op.update(n=rng.choice([1, 2, 3, 5, 8, 20]), kind=rng.choice(["int", "delta", "float", "pos", "zero_one"]),
                  methods=rng.sample(["a", "b", "zz", "twin"], rng.choice([1, 2, 3])) + ["ref"],
                  metrics=rng.sample(["m1", "Brier", "zero_one"], rng.choice([1, 2])), pairwise=rng.random() < 0.7,
                  lim=rng.choice(["wide", "inf"]), shift=rng.choice([0.0, 0.0, 0.5, 2.0]))
    elif k == "curve":
        op.update(n=rng.choice([2, 3, 4, 6, 8, 12]), pos=0.5, bool=False, good=rng.random() < 0.7, ties=rng.random() < 0.3,
                  curve=rng.choice(["AUC", "AP", "AUPRG"]), ref=rng.choice(["table", "scalar", "same", "monotone", "reverse"]),
                  scalar=rng.choice([0.5, 0.1, 0.9]), n_boot=rng.choice([1, 2, 5, 19, 20, 21, 40, 100]))
    else:
        op.update(n=rng.choice([1, 2, 3, 5, 10, 19, 20, 21, 39, 40, 41, 100, 199, 200, 201]), kind=rng.choice(["float", "ties", "const", "skew", "inf"]),
                  ref=rng.choice(["scalar", "array", "quantile", "quantile"]), q=rng.random())
    if rng.random() < 0.03:
        op["n"] = rng.choice([300, 1000])
        if k == "curve":
            op["n_boot"] = min(op["n_boot"], 20)
    return op


def generate(rng, i, tier):
    seq = []
    for _ in range(rng.choice([1, 2, 3])):
        op = gen_op(rng)
        if seq and rng.random() < 0.4:  # another of the same shape, at another confidence
            op = dict(rng.choice(seq), conf=op["conf"], s=op["s"], method=op["method"] if rng.random() < 0.3 else seq[0]["method"])
        seq.append(op)
    return {"ops": seq, "seed": rng.randrange(2 ** 32),
            "steer": {"seed": rng.randrange(10 ** 6), "p": rng.choice([0.5, 1.0])} if rng.random() < 0.5 else None}


def fixup(sc):
    for op in sc["ops"]:
        if op["k"] == "table" and (not op["metrics"] or "ref" not in op["methods"]):
            return None
    return sc if sc["ops"] else None


def coherent(run, what, effect, EB, p, conf, both, info, size=1.0):
    """An effect beyond its error bar is significant; for the closed forms also the other way."""
    if not (np.ndim(p) == 0 and p == p and 0.0 <= p <= 1.0):
        raise core.Violation("range", "%s: p-value %r %s" % (what, p, info))
    if EB != EB or EB < 0:
        raise core.Violation("range", "%s: error bar %r %s" % (what, EB, info))
    a = abs(effect)
    out = a > EB * (1 + 1e-6) + 1e-13 * (size + a) if np.isfinite(a) else (a == np.inf and EB < np.inf)
    inn = np.isfinite(a) and a < EB * (1 - 1e-6) - 1e-13 * (size + a)
    if out:
        run.hit("probe/significant")
        run.nontrivial = True
        if p > 1.0 - conf + 1e-9:
            raise core.Violation("bar-without-significance", "%s: effect %r is outside its error bar %r at confidence %g, but p = %r %s" % (
                what, effect, EB, conf, p, info))
    if inn:
        run.hit("probe/not_significant")
        if both and p < 1.0 - conf - 1e-9:
            raise core.Violation("significance-within-bar", "%s: effect %r is within its error bar %r at confidence %g, but p = %r %s" % (
                what, effect, EB, conf, p, info))


def execute(sc, run):
    proc = seams.Proc("p", None, {}, entropy="c11")
    with seams.use(proc), np.errstate(all="ignore"):
        lib = loader.fresh()
        for k, op in enumerate(sc["ops"]):
            np.random.seed((sc["seed"] + k) % 2 ** 32)
            steer = dict(sc["steer"], seed="%s/%d" % (sc["steer"]["seed"], k)) if sc["steer"] else None
            if steer and op["k"] == "curve":
                yb = np.asarray(c10.labels(op, np.random.RandomState(op["s"])), dtype=bool)
                steer["cells"] = [c for c in (np.flatnonzero(yb).tolist(), np.flatnonzero(~yb).tolist()) if c]
            ch = proc.chance = chance.Chance(steer)
            what = "op %d: " % k
            try:
                {"mean": mean, "table": table, "curve": curve, "helpers": helpers}[op["k"]](lib, op, what, run, sc, k, proc)
            except core.Violation:
                raise
            except Exception as e:
                raise core.Violation("failed", "%s%s raised %s: %s" % (what, op, type(e).__name__, e))
            ch = proc.chance
            if ch.steered:
                run.hit("fault/steered_draw")
            for pat, v in ch.patterns.items():
                run.hit("fault/draw_" + pat, v)
    run.simtime = proc.elapsed()


def again(sc, k, proc):
    """The same draws once more."""
    np.random.seed((sc["seed"] + k) % 2 ** 32)
    old = proc.chance
    proc.chance = chance.Chance(old.steer)


def mean(lib, op, what, run, sc, k, proc):
    c = lib.core
    x = c09.data(op) * 2.0 ** op.get("scale", 0)
    m = op["method"]
    run.hit("probe/" + m)
    if m == "boot":
        run.nontrivial = True
    unit = 2.0 ** op.get("scale", 0)
    if op["aim"] is not None and op["n"] > 1 and np.ptp(x) > 0:
        # put the mean near the boundary: shifting leaves a t or bootstrap error bar as it is
        x = x - np.mean(x)
        if m == "boot":
            EB = float(c.boot_EB(x, op["conf"], n_boot=1000))
            again(sc, k, proc)
        elif m == "t":
            EB = float(c.t_EB(x, op["conf"]))
        else:
            r = 40.0 * (unit + np.max(np.abs(x)))
            EB = float(c.bernstein_EB(x, -r, r, op["conf"]))
        if np.isfinite(EB):
            x = x + op["aim"] * EB
            run.hit("probe/near_boundary")
    r = float("inf") if op["lim"] == "inf" else 40.0 * (unit + float(np.max(np.abs(x - np.mean(x)))))
    r = max(r, float(np.max(np.abs(x))) * 2)
    lo = -r
    if op["lim"] == "half":  # losses that cannot be negative
        x, lo = np.abs(x), 0.0
    mu, EB, p = [float(v) for v in c.get_mean_EB_test(x, op["conf"], lower=lo, upper=r, method=m)]
    run.log("mean", m, mu, EB, p)
    info = "(%s of %s)" % (m, x.tolist())
    coherent(run, what + "get_mean_EB_test", mu, EB, p, op["conf"], m != "boot", info,
             size=float(np.max(np.abs(x))) if op["lim"] != "half" else max(float(np.max(np.abs(x))), 1e-300))
    if not np.any(x):
        run.hit("probe/identical")
        if p != 1.0:
            raise core.Violation("identical", "%sp = %r for all-zero differences %s" % (what, p, info))
        if m != "bernstein" and op["n"] > 1 and EB != 0.0:
            raise core.Violation("identical", "%serror bar %r for all-zero differences %s" % (what, EB, info))
    # the parts agree with the whole, given the same draws
    again(sc, k, proc)
    mu2, EB2 = [float(v) for v in c.get_mean_and_EB(x, op["conf"], lower=lo, upper=r, method=m)]
    again(sc, k, proc)
    p2 = float(c.get_test(x, lo, r, method=m))
    if not np.allclose([mu2, EB2, p2], [mu, EB, p], rtol=1e-9, atol=1e-12 * (unit + abs(mu))):
        raise core.Violation("parts-differ", "%sget_mean_EB_test gives %r, its parts %r %s" % (what, (mu, EB, p), (mu2, EB2, p2), info))
    # more confidence: a wider bar, the same p-value
    again(sc, k, proc)
    c2 = op["conf"] + (1 - op["conf"]) * (0.5 if op["s"] % 2 else 0.08)
    _, EB3, p3 = [float(v) for v in c.get_mean_EB_test(x, c2, lower=lo, upper=r, method=m)]
    run.hit("probe/confidence_pair")
    strict = m != "boot" and 1e-100 < EB < 0.99 * max(r - mu, mu - lo)  # and not cut off at the limits
    if p3 != p or EB3 < EB * (1 - 1e-12) or (strict and EB3 < EB * (1 + 1e-9)):
        raise core.Violation("confidence", "%sconfidence %g: %r; confidence %g: %r %s" % (what, op["conf"], (EB, p), c2, (EB3, p3), info))


def table(lib, op, what, run, sc, k, proc):
    rs = np.random.RandomState(op["s"])
    n, m, conf = op["n"], op["method"], op["conf"]
    vals, cols = {}, []
    for metric in op["metrics"]:
        for j, name in enumerate(op["methods"]):
            v = c09.data({"s": rs.randint(2 ** 31), "n": n, "kind": op["kind"]}) + (op["shift"] * j if op["kind"] != "zero_one" else 0.0)
            vals[metric, name] = v
        if "twin" in op["methods"]:
            vals[metric, "twin"] = vals[metric, "ref"].copy()
        cols += [(metric, name) for name in op["methods"]]
    tbl = pd.DataFrame(np.stack([vals[c] for c in cols], axis=1), columns=pd.MultiIndex.from_tuples(cols, names=["metric", "method"]))
    lim = {}
    if op["lim"] == "wide":
        lim = {metric: (float(tbl[metric].values.min()) - 0.5, float(tbl[metric].values.max()) + 0.5) for metric in op["metrics"]}
    r = lib.core.loss_summary_table(tbl, "ref", pairwise_CI=op["pairwise"], confidence=conf, method_EB=m, limits=lim)
    run.hit("probe/table")
    run.hit("probe/" + m)
    run.log("table", m, r.values.tolist())
    if m == "boot":
        run.nontrivial = True
    for metric in op["metrics"]:
        mr, er, pr = [float(v) for v in r.loc["ref", metric][["mean", "error", "p"]]]
        if pr == pr or (op["pairwise"] and er == er):
            raise core.Violation("reference", "%sthe reference has error %r, p %r" % (what, er, pr))
        if not op["pairwise"] and not er >= 0:
            raise core.Violation("range", "%sthe reference has error %r" % (what, er))
        for name in op["methods"]:
            if name == "ref":
                continue
            mu, EB, p = [float(v) for v in r.loc[name, metric][["mean", "error", "p"]]]
            info = "(%s table, %s - ref: %s)" % (m, name, (vals[metric, name] - vals[metric, "ref"]).tolist())
            if op["pairwise"]:
                coherent(run, what + metric, mu - mr, EB, p, conf, m != "boot", info)
            elif not (0 <= p <= 1 and EB >= 0):
                raise core.Violation("range", "%s%s: error %r, p %r %s" % (what, metric, EB, p, info))
            if name == "twin":
                run.hit("probe/identical")
                if p != 1.0:
                    raise core.Violation("identical", "%s%s: p = %r for a method identical to the reference %s" % (what, metric, p, info))
                if op["pairwise"] and m != "bernstein" and n > 1 and EB != 0.0:
                    raise core.Violation("identical", "%s%s: paired error bar %r for a method identical to the reference %s" % (what, metric, EB, info))
                if not op["pairwise"] and m != "boot" and EB != er:
                    raise core.Violation("identical", "%s%s: error bar %r, the identical reference has %r %s" % (what, metric, EB, er, info))
    if m != "boot":
        # which of the two is called the reference makes no difference to the size of either
        for name in op["methods"]:
            s = lib.core.loss_summary_table(tbl, name, pairwise_CI=op["pairwise"], confidence=conf, method_EB=m, limits=lim)
            for metric in op["metrics"]:
                if name == "ref":
                    continue
                a, b = r.loc[name, metric], s.loc["ref", metric]
                same = np.isclose(a["p"], b["p"], rtol=1e-6, atol=1e-12) and (
                    not op["pairwise"] or np.isclose(a["error"], b["error"], rtol=1e-9, atol=1e-12) or a["error"] == b["error"])
                if not same:
                    raise core.Violation("asymmetric", "%s%s: %s against ref gives %s, ref against %s gives %s" % (
                        what, metric, name, a.tolist(), name, b.tolist()))


def curve(lib, op, what, run, sc, k, proc):
    rs = np.random.RandomState(op["s"])
    y = c10.labels(op, rs)
    lp = c10.predict(op, rs, y)
    kind = op["ref"]
    ref = {"table": lambda: c10.predict(op, rs, y), "scalar": lambda: op["scalar"], "same": lambda: lp.copy(),
           "monotone": lambda: lp / 2, "reverse": lambda: lp[:, ::-1].copy()}[kind]()
    f = c10.curve_of(lib, op["curve"])
    kw = dict(x_grid=np.array([0.0, 0.5, 1.0]), n_boot=op["n_boot"], confidence=op["conf"])
    (auc, EB, p), frame = lib.classification.curve_boot(y, lp, ref, f, pairwise_CI=True, **kw)
    auc, EB, p = float(auc), float(EB), float(p)
    run.hit("probe/curve")
    run.nontrivial = True
    run.log("curve", op["curve"], auc, EB, p)
    info = "(%s, y %s, scores %s, reference %s)" % (op["curve"], y.tolist(), lp[:, 1].tolist(), ref if np.ndim(ref) == 0 else ref[:, 1].tolist())
    if kind == "scalar":
        r = float(ref)
    else:
        again(sc, k, proc)
        r = float(lib.classification.curve_boot(y, ref, 0.5, f, **kw)[0][0])
    effect = 0.0 if auc == r else auc - r
    if EB == EB:  # NaN: an infinite area among the replicates and the estimate
        coherent(run, what + "curve_boot", effect, EB, p, op["conf"], False, info)
    elif np.isfinite(auc) and np.isfinite(r):
        raise core.Violation("range", "%serror bar NaN of a finite area %r %s" % (what, auc, info))
    if kind in ("same", "monotone"):
        run.hit("probe/identical" if kind == "same" else "probe/ranking_equal")
        if p != 1.0 or EB != 0.0:
            raise core.Violation("identical", "%spaired error bar %r, p = %r for the same ranking as the reference %s" % (what, EB, p, info))
    v = frame.values
    if np.any(v[:, 2] > v[:, 3]):
        raise core.Violation("envelope", "%senvelope upside down: %s %s" % (what, v.tolist(), info))
    # the same draws, unpaired and with more confidence
    again(sc, k, proc)
    (auc2, EB2, p2), frame2 = lib.classification.curve_boot(y, lp, ref, f, pairwise_CI=False, **kw)
    if float(auc2) != auc or float(p2) != p:
        raise core.Violation("pairwise-changes-test", "%spaired: area %r, p %r; unpaired: area %r, p %r %s" % (what, auc, p, auc2, p2, info))
    if kind == "scalar" and EB == EB and not np.isclose(float(EB2), EB, rtol=1e-9, atol=1e-12):
        raise core.Violation("pairwise-changes-test", "%sa scalar reference moves the error bar from %r to %r %s" % (what, EB2, EB, info))
    again(sc, k, proc)
    kw["confidence"] = op["conf"] + (1 - op["conf"]) / 2
    (auc3, EB3, p3), frame3 = lib.classification.curve_boot(y, lp, ref, f, pairwise_CI=True, **kw)
    run.hit("probe/confidence_pair")
    w = frame3.values
    if float(p3) != p or (EB == EB and float(EB3) < EB) or np.any(w[:, 2] > v[:, 2]) or np.any(w[:, 3] < v[:, 3]):
        raise core.Violation("confidence", "%sconfidence %g: %r; confidence %g: %r; envelopes %s, %s %s" % (
            what, op["conf"], (EB, p), kw["confidence"], (EB3, p3), v[:, 2:].tolist(), w[:, 2:].tolist(), info))


def helpers(lib, op, what, run, sc, k, proc):
    bu = lib.boot_util
    rs = np.random.RandomState(op["s"])
    n, conf = op["n"], op["conf"]
    kw = ops.spare(dict(confidence=conf), confidence=0.95)
    b = {"float": lambda: rs.randn(n), "ties": lambda: rs.randint(-2, 3, size=n).astype(float), "const": lambda: np.full(n, 0.5),
         "skew": lambda: np.exp(2 * rs.randn(n)), "inf": lambda: np.where(rs.rand(n) < 0.2, -np.inf, rs.randn(n))}[op["kind"]]()
    run.hit("probe/helpers")
    LB, UB = [float(v) for v in bu.percentile(b, **kw)]
    info = "(%d replicates, confidence %g: %s)" % (n, conf, np.sort(b).tolist()[:50])
    run.log("helpers", LB, UB)
    if not LB <= UB or LB not in b or UB not in b:
        raise core.Violation("percentile", "%spercentile gives [%r, %r] %s" % (what, LB, UB, info))
    inside = np.sum((LB <= b) & (b <= UB))
    if inside < conf * n - 1e-9:
        raise core.Violation("percentile", "%s[%r, %r] holds %d of %d replicates %s" % (what, LB, UB, inside, n, info))
    # not wider than rounding outward asks for
    if np.sum(b < LB) > (1 - conf) / 2 * n + 1 or np.sum(b > UB) > (1 - conf) / 2 * n + 1 or \
            np.sum(b <= LB) < (1 - conf) / 2 * (n - 1) - 1e-9 or np.sum(b >= UB) < (1 - conf) / 2 * (n - 1) - 1e-9:
        raise core.Violation("percentile", "%s[%r, %r] is not the %g interval %s" % (what, LB, UB, conf, info))
    ref = {"scalar": lambda: 0.0, "array": lambda: rs.randn(n).round(1),
           "quantile": lambda: float(np.sort(b)[min(n - 1, int(op["q"] * n))]) + rs.choice([0.0, 1e-3, -1e-3])}[op["ref"]]()
    p = float(bu.significance(b, ref))
    if not 0.0 <= p <= 1.0:
        raise core.Violation("range", "%ssignificance %r %s" % (what, p, info))
    if op["ref"] != "array":
        if (ref < LB or ref > UB) and p > 1 - conf + 1e-9:
            raise core.Violation("bar-without-significance", "%s%r is outside [%r, %r], but p = %r %s" % (what, ref, LB, UB, p, info))
        if LB < ref < UB and p < (1 - conf) - 1e-9 - 2.0 / n:
            raise core.Violation("significance-within-bar", "%s%r is inside [%r, %r], but p = %r %s" % (what, ref, LB, UB, p, info))
        if ref < LB or ref > UB:
            run.hit("probe/significant")
            run.nontrivial = True
        # exact sign-symmetric count
        want = min(1.0, 2.0 * min(np.sum(b <= ref), np.sum(b >= ref)) / n)
        if abs(p - want) > 1e-9:
            raise core.Violation("p-value", "%ssignificance against %r is %r, expected %r %s" % (what, ref, p, want, info))
    else:
        d = float(bu.significance(b - ref, 0.0)) if np.all(np.isfinite(b)) else None
        s = float(bu.significance(ref, b))
        if s != p:
            raise core.Violation("asymmetric", "%ssignificance %r one way, %r the other %s" % (what, p, s, info))
        if d is not None and abs(d - p) > 1e-9:
            raise core.Violation("p-value", "%spaired significance %r, of the differences %r %s" % (what, p, d, info))
    mu = float(rs.choice(b)) if op["kind"] != "inf" else float(rs.randn())
    EB = float(bu.error_bar(b, mu, **kw))
    if not (EB >= 0 and mu - EB <= LB + 1e-9 * (1 + abs(LB if np.isfinite(LB) else 0)) and mu + EB >= UB - 1e-9 * (1 + abs(UB))):
        raise core.Violation("error-bar", "%s%r +/- %r does not cover [%r, %r] %s" % (what, mu, EB, LB, UB, info))
    if np.isfinite(EB) and not np.isclose(EB, max(UB - mu, mu - LB, 0.0), rtol=1e-9, atol=1e-12):
        raise core.Violation("error-bar", "%s%r +/- %r is wider than [%r, %r] asks for %s" % (what, mu, EB, LB, UB, info))
    if np.all(np.isfinite(b)):
        L2, U2 = [float(v) for v in bu.basic(b, np.float64(mu), **kw)]
        if not np.allclose([L2, U2], [2 * mu - UB, 2 * mu - LB], rtol=1e-9, atol=1e-9):
            raise core.Violation("basic", "%sbasic interval [%r, %r] of percentile [%r, %r] around %r %s" % (what, L2, U2, LB, UB, mu, info))
    # several quantities at once: each as if alone
    run.hit("probe/many_quantities")
    wide = np.stack([rs.permutation(b), np.sort(b)[::-1], rs.randn(n).round(1)], axis=1)
    lo, up = bu.percentile(wide, **kw)
    for j in range(3):
        one = [float(v) for v in bu.percentile(wide[:, j].copy(), **kw)]
        if [float(lo[j]), float(up[j])] != one or (j < 2 and one != [LB, UB]):
            raise core.Violation("percentile", "%scolumn %d of several: [%r, %r], alone %r, sorted %r %s" % (what, j, lo[j], up[j], one, [LB, UB], info))
    if np.all(np.isfinite(b)):
        mid = np.array([mu, -mu, 0.25])
        L3, U3 = bu.basic(wide, mid, **kw)
        if not np.allclose(L3, 2 * mid - up, rtol=1e-9, atol=1e-9) or not np.allclose(U3, 2 * mid - lo, rtol=1e-9, atol=1e-9):
            raise core.Violation("basic", "%sbasic interval %s, %s of percentile %s, %s around %s" % (what, L3, U3, lo, up, mid))
