"""C10: curve areas, their error bars, tests and envelopes are the bootstrap of the draws made."""
import numpy as np
import pandas as pd

from vsim import chance, core, loader, ops, refmodel, seams

PID = "C10"
PLAN = {"quick": dict(runs=9000, wall=420, min=500, recheck=48),
        "thorough": dict(runs=100000, wall=3000, min=5000, recheck=300)}
SHRINK = ("ops", "methods", "curves")
RULE = ("A session of curve_boot, curve_summary_table and summary_table calls on seeded binary predictions (ties, one class only, "
        "few points) under real and adversarial draws (resamples that empty a class, identical resamples, one point only); "
        "every number is recomputed from the recorded draw. Non-trivial: an error bar was compared with a recorded draw. "
        "Distinct by digest of inputs and results.")
REAL = ["mlpaper.classification, perf_curves, util, boot_util (working tree)", "scipy.interpolate"]
STUBS = ["numpy.random's global functions: recorded, and in part replaced by adversarial legal draws"]
ASSUMPTIONS = ["a build that draws in a way the recorder cannot read is only checked for areas, curves and ranges",
               "round-off is bounded point by point; resamples in which a class has only token weight (1e-10) are compared to 1e-4"]
MUST_HIT = ("probe/AUC", "probe/AP", "probe/AUPRG", "probe/paired", "probe/scalar_ref", "probe/single_class", "probe/ties",
            "probe/minus_inf", "probe/envelope", "probe/table", "probe/summary", "fault/steered_draw", "fault/draw_class_emptied",
            "fault/draw_one_point", "probe/identical_ref", "probe/default_grid", "probe/rejected", "probe/close_scores", "probe/many_replicates", "probe/many_points")
CURVES = ("AUC", "AP", "AUPRG")
SLACK = 1e-7


def gen_op(rng):
    k = rng.choice(["boot", "boot", "boot", "table", "table", "summary"])
    op = {"k": k, "s": rng.randrange(2 ** 31), "n": rng.choice([1, 2, 3, 4, 5, 6, 6, 8, 8, 10, 12, 15]), "ties": rng.random() < 0.4,
          "pos": rng.choice([0.5] * 8 + [0.25, 0.75] * 2 + [0.0, 1.0]), "bool": rng.random() < 0.4, "good": rng.random() < 0.4,
          "n_boot": rng.choice([1, 2, 5, 10, 20, 40]) if k == "boot" else rng.choice([2, 7, 20]),
          "scores": rng.choice(["plain"] * 5 + ["sure", "surest", "deep", "close"]),
          "conf": rng.choice([0.95, 0.95, 0.9, 0.5, 0.8, 0.683, 0.9545, 0.99]), "pairwise": rng.random() < 0.5,
          "grid": rng.choice(["off", "off", "lattice", "default", "one", "inner", "twice"])}
    if k == "boot":
        op["curve"] = rng.choice(CURVES)
        op["ref"] = rng.choice(["table", "table", "scalar", "same", "monotone", "reverse"])
        op["scalar"] = rng.choice([0.5, 0.0, 1.0, 0.3])
        if rng.random() < 0.06:
            op.update(n_boot=rng.choice([100, 250, 400, 1000]), n=rng.choice([4, 6, 10, 20]), scores="plain",
                      grid=rng.choice(["one", "inner"]), pos=0.5)
        elif rng.random() < 0.02:
            op.update(n=rng.choice([300, 700, 1300]), n_boot=rng.choice([1, 2, 5]), pos=rng.choice([0.5, 0.02]),
                      scores=rng.choice(["plain", "plain", "plain", "sure", "close"]))
        if op["curve"] == "AUPRG" and op["grid"] == "default":
            op["grid"] = "off"
        if op["grid"] == "default":
            op["n_boot"] = min(op["n_boot"], 10)
        if rng.random() < 0.04:
            op["bad"] = rng.choice(["nan", "grid", "labels"])
    else:
        op["methods"] = rng.sample(["ref", "b", "a", "zz", "twin"], rng.choice([1, 2, 3, 3, 4, 5]))
        op["ref"] = rng.choice(op["methods"])
        op["curves"] = rng.sample(CURVES, rng.choice([1, 2]))
        if op["grid"] == "default" and rng.random() < 0.7:
            op["grid"] = "off"
    return op


def generate(rng, i, tier):
    return {"ops": [gen_op(rng) for _ in range(rng.choice([1, 1, 2]))], "seed": rng.randrange(2 ** 32),
            "steer": {"seed": rng.randrange(10 ** 6), "p": rng.choice([0.5, 1.0])} if rng.random() < 0.5 else None}


def fixup(sc):
    for op in sc["ops"]:
        if op["k"] != "boot" and (not op["methods"] or not op["curves"]):
            return None
        if op["k"] != "boot" and op["ref"] not in op["methods"]:
            op["ref"] = op["methods"][0]
    return sc if sc["ops"] else None


def labels(op, rs):
    y = rs.rand(op["n"]) < op["pos"]
    return y if op["bool"] else y.astype(int)


def predict(op, rs, y):
    n = len(y)
    z = rs.randn(n)
    if op["good"]:
        z = z + 2.0 * np.asarray(y, dtype=float)
    if op["ties"]:
        z = z.round()
    kind = op.get("scores", "plain")
    if kind != "plain":  # scores that differ little: log probabilities next to 0, or far out
        if kind in ("sure", "surest"):
            lp = -(1e-8 if kind == "sure" else 1e-13) * np.exp(-z)
        elif kind == "deep":
            lp = -200.0 + z
        else:
            lp = -3.0 + 1e-11 * z
        return np.stack([np.log(-np.expm1(lp)), lp], axis=1)
    p = 1.0 / (1.0 + np.exp(-z))
    return np.log(np.stack([1.0 - p, p], axis=1))


def grid_of(op, rs):
    g = op["grid"]
    if g == "default":
        return None
    if g == "off":
        return np.sort(np.r_[rs.rand(5), 0.0, 1.0])
    if g == "lattice":
        return np.linspace(0, 1, 7)
    if g == "one":
        return np.array([rs.rand()])
    if g == "twice":
        return np.array([0.0, 0.0, 0.25, 0.25, 0.5, 0.75, 1.0, 1.0])
    return np.sort(rs.rand(4)) * 0.5 + 0.25


def curve_of(lib, name):
    return {"AUC": lib.perf_curves.roc_curve, "AP": lib.perf_curves.recall_precision_curve, "AUPRG": lib.perf_curves.prg_curve}[name]


def within(v, band, rtol=1e-7, atol=1e-7):
    lo, hi = band
    if v != v:
        return False
    if v == lo or v == hi:
        return True
    return lo - atol - rtol * abs(lo) <= v <= hi + atol + rtol * abs(hi)


class Model:
    """What one curve_boot call must return, given the weights drawn."""

    def __init__(self, name, y, lp, ref, grid):
        self.name, self.y = name, [bool(v) for v in y]
        self.s = [float(v) for v in lp[:, 1]]
        self.refs = None if np.ndim(ref) == 0 else [float(v) for v in ref[:, 1]]
        self.ref = float(ref) if np.ndim(ref) == 0 else None
        self.grid = np.linspace(0, 1, 100) if grid is None else grid
        pts, self.kind = refmodel.curve_bands(name, self.y, self.s)
        self.area = refmodel.band_area(pts, self.kind)
        self.curve = [refmodel.band_eval(pts, self.kind, float(g), 1e-9) for g in self.grid]
        self.ref_area = (self.ref, self.ref) if self.refs is None else refmodel.band_area(
            refmodel.curve_bands(name, self.y, self.refs)[0], self.kind)

    def boot(self, w):
        w = np.maximum(1e-10, w)
        areas, refs, evals = [], [], [[] for _ in self.grid]
        same = self.refs is not None and self.refs == self.s
        memo = {}
        for row in w.tolist():
            key = tuple(row)
            if key not in memo:
                pts, kind = refmodel.curve_bands(self.name, self.y, self.s, row)
                a = refmodel.band_area(pts, kind)
                r = self.ref_area if self.refs is None else refmodel.band_area(
                    refmodel.curve_bands(self.name, self.y, self.refs, row)[0], kind)
                memo[key] = (a, r, [refmodel.band_eval(pts, kind, float(g), 1e-8) for g in self.grid])
            a, r, ev = memo[key]
            areas.append(a)
            refs.append(r)
            for j, e in enumerate(ev):
                evals[j].append(e)
        self.same = same
        return areas, refs, evals


def EB_bands(bands, mu, conf):
    """Candidate bands of the error bar."""
    out = []
    lo, hi = refmodel.percentile_bands(bands, conf)
    for L in lo:
        for U in hi:
            cand = []
            for m in set(mu):
                for u in set(U):
                    for v in set(L):
                        a = float("nan") if (np.isinf(u) and u == m) else u - m
                        b = float("nan") if (np.isinf(v) and v == m) else m - v
                        cand.append(refmodel.fmax(a, b))
            if L[0] <= mu[1] and mu[0] <= L[1] and U[0] <= mu[1] and mu[0] <= U[1]:
                cand.append(0.0)
            out.append(cand)
    return out


def EB_ok(EB, bands, mu, conf):
    for cand in EB_bands(bands, mu, conf):
        nan = [c for c in cand if c != c]
        fin = [c for c in cand if c == c]
        if EB != EB:
            if nan:
                return True
        elif fin and within(EB, (max(0.0, min(fin)), max(fin)), 1e-6, 1e-7):
            return True
    return False


def arguments(op, grid):
    """Keyword arguments, those at their documented default left out."""
    kw = dict(x_grid=grid, n_boot=op["n_boot"], pairwise_CI=op["pairwise"], confidence=op["conf"])
    default = dict(x_grid=None, n_boot=1000, confidence=0.95)
    return {k: v for k, v in kw.items() if k not in default or v is not default[k] and not (np.isscalar(v) and v == default[k])}


def judge(run, ch, model, what, op, n, auc, EB, p, frame, is_ref=False):
    conf, B = op["conf"], op["n_boot"]
    if not within(auc, model.area):
        raise core.Violation("area", "%s: area %r, expected %s (y %s, scores %s)" % (what, auc, model.area, model.y, model.s))
    if auc == -float("inf"):
        run.hit("probe/minus_inf")
    if frame is not None:
        if list(frame.columns) != ["xgrid", "ygrid", "LB", "UB"] or len(frame) != len(model.grid):
            raise core.Violation("curve", "%s: curve frame has columns %s, %d rows" % (what, list(frame.columns), len(frame)))
        f = frame.values
        if not np.array_equal(f[:, 0], model.grid):
            raise core.Violation("curve", "%s: grid %s, not %s" % (what, f[:5, 0], model.grid[:5]))
        for j in range(len(f)):
            if not within(f[j, 1], model.curve[j], SLACK, SLACK):
                raise core.Violation("curve", "%s: curve at %r is %r, expected %s (y %s, scores %s)" % (
                    what, f[j, 0], f[j, 1], model.curve[j], model.y, model.s))
            if f[j, 2] > f[j, 3]:
                raise core.Violation("envelope", "%s: at %r the lower end %r is above the upper %r" % (what, *f[j, [0, 2, 3]]))
    if not is_ref and (p != p or p < 0 or p > 1):
        raise core.Violation("range", "%s: p-value %r" % (what, p))
    if is_ref:
        if p == p:
            raise core.Violation("reference", "%s: the reference method has p-value %r" % (what, p))
        if op["pairwise"]:
            if EB == EB:
                raise core.Violation("reference", "%s: the reference method has paired error bar %r" % (what, EB))
            EB = None
        p = None
    if EB is not None and EB < 0:
        raise core.Violation("range", "%s: error bar %r" % (what, EB))
    cands = chance.weight_candidates(ch, n, B)
    if not cands:
        sets = len(op.get("methods", [0])) * len(op.get("curves", [0]))
        drawn = chance.wrong_count(ch, n, B, sets)
        if drawn is not None:
            raise core.Violation("replicates", "%s: %d resamples were drawn, not %d for each curve" % (what, drawn, B))
        run.hit("probe/unreadable_draw")
        return
    best = None
    for w in reversed(cands):
        why = _match(model, w, op, EB, p, frame, auc)
        if why is None:
            run.nontrivial = True
            run.hit("probe/compared")
            if frame is not None:
                run.hit("probe/envelope")
            return
        if best is None or why[0] > best[0]:
            best = why
    raise core.Violation(best[1], "%s: %s (confidence %g, y %s, scores %s, reference %s)" % (
        what, best[2], conf, model.y, model.s, model.refs if model.refs is not None else model.ref))


def _match(model, w, op, EB, p, frame, auc):
    conf = op["conf"]
    areas, refs, evals = model.boot(w)
    if EB is not None:
        if op["pairwise"]:
            if model.same:
                bands, mu = [(0.0, 0.0)] * len(areas), (0.0, 0.0)
            else:
                bands = [refmodel.sub_band(a, r) for a, r in zip(areas, refs)]
                mu = refmodel.sub_band(model.area, model.ref_area)
        else:
            bands, mu = areas, model.area
        if not EB_ok(EB, bands, mu, conf):
            return 0, "error-bar", "error bar %r, the draw gives %s around %s" % (EB, EB_bands(bands, mu, conf), mu)
    if p is not None:
        lo, hi = (1.0, 1.0) if model.same else refmodel.p_band(areas, refs)
        if not lo - 1e-9 <= p <= hi + 1e-9:
            return 1, "p-value", "p-value %r, the draw gives [%r, %r]" % (p, lo, hi)
    if frame is not None:
        f = frame.values
        for j in range(len(f)):
            lo, hi = refmodel.percentile_bands(evals[j], conf)
            if not any(within(f[j, 2], b, 1e-6, 1e-6) for b in lo):
                return 2, "envelope", "lower end at %r is %r, the draw gives %s" % (f[j, 0], f[j, 2], lo)
            if not any(within(f[j, 3], b, 1e-6, 1e-6) for b in hi):
                return 2, "envelope", "upper end at %r is %r, the draw gives %s" % (f[j, 0], f[j, 3], hi)
    return None


def execute(sc, run):
    proc = seams.Proc("p", None, {}, entropy="c10")
    with seams.use(proc), np.errstate(all="ignore"):
        lib = loader.fresh()
        np.random.seed(sc["seed"])
        for k, op in enumerate(sc["ops"]):
            rs = np.random.RandomState(op["s"])
            y = labels(op, rs)
            steer = None
            if sc["steer"]:
                yb = np.asarray(y, dtype=bool)
                cells = [np.flatnonzero(yb).tolist(), np.flatnonzero(~yb).tolist()]
                steer = dict(sc["steer"], seed="%s/%d" % (sc["steer"]["seed"], k), cells=[c for c in cells if c])
            ch = proc.chance = chance.Chance(steer)
            if yb_single(y):
                run.hit("probe/single_class")
            (one if op["k"] == "boot" else table)(lib, op, "op %d" % k, rs, y, ch, run)
            if ch.steered:
                run.hit("fault/steered_draw")
            for pat, v in ch.patterns.items():
                run.hit("fault/draw_" + pat, v)
    run.simtime = proc.elapsed()


def yb_single(y):
    return len(set(np.asarray(y).tolist())) == 1


def one(lib, op, what, rs, y, ch, run):
    lp = predict(op, rs, y)
    grid = grid_of(op, rs)
    kind = op["ref"]
    ref = {"table": lambda: predict(op, rs, y), "scalar": lambda: op["scalar"], "same": lambda: lp.copy(),
           "monotone": lambda: lp / 2, "reverse": lambda: lp[:, ::-1].copy()}[kind]()
    if op.get("bad"):
        try:
            if op["bad"] == "nan":
                b = lp.copy()
                b[0, 1] = np.nan
                r = lib.classification.curve_boot(y, b, ref, curve_of(lib, op["curve"]), n_boot=3)
            elif op["bad"] == "grid":
                r = lib.classification.curve_boot(y, lp, ref, curve_of(lib, op["curve"]), x_grid=np.array([-0.5, 0.5]), n_boot=3)
            else:
                r = lib.classification.curve_boot(np.asarray(y).astype(int) + 1, np.log(np.full((len(y), 3), 1 / 3.)), 0.5,
                                                  curve_of(lib, op["curve"]), n_boot=3)
        except Exception:
            run.hit("probe/rejected")
            return
        raise core.Violation("accepted", "%s: curve_boot accepted an invalid request (%s): %r" % (what, op["bad"], r[0]))
    kw = arguments(op, grid)
    what = "%s: curve_boot(%s, n_boot=%d, pairwise_CI=%s)" % (what, op["curve"], op["n_boot"], op["pairwise"])
    keep = (y.copy(), lp.copy(), np.array(ref))
    try:
        (auc, EB, p), frame = lib.classification.curve_boot(y, lp, ref, curve_of(lib, op["curve"]), **kw)
    except Exception as e:
        raise core.Violation("failed", "%s raised %s: %s (y %s, scores %s)" % (what, type(e).__name__, e, y.tolist(), lp[:, 1].tolist()))
    if not (np.array_equal(keep[0], y) and np.array_equal(keep[1], lp) and np.array_equal(keep[2], ref)):
        raise core.Violation("input-changed", "%s changed its arguments" % what)
    run.log(op["curve"], float(auc), float(EB), float(p), frame.values.tolist())
    run.hit("probe/" + op["curve"])
    if op["n"] >= 300:
        run.hit("probe/many_points")
    if op["n_boot"] >= 100:
        run.hit("probe/many_replicates")
    run.hit("probe/scalar_ref" if kind == "scalar" else "probe/paired")
    if kind == "same":
        run.hit("probe/identical_ref")
    if len(set(lp[:, 1])) < len(lp):
        run.hit("probe/ties")
    if op.get("scores", "plain") != "plain":
        run.hit("probe/close_scores")
    if grid is None:
        run.hit("probe/default_grid")
    judge(run, ch, Model(op["curve"], y, lp, ref, grid), what, op, len(y), float(auc), float(EB), float(p), frame)


def table(lib, op, what, rs, y, ch, run):
    n = len(y)
    grid = grid_of(op, rs)
    lps = {}
    for m in op["methods"]:
        lps[m] = predict(op, rs, y)
    if "twin" in lps and op["ref"] != "twin":
        lps["twin"] = lps[op["ref"]].copy()
    cols = pd.MultiIndex.from_product([op["methods"], [0, 1]], names=["method", "label"])
    tbl = pd.DataFrame(np.concatenate([lps[m] for m in op["methods"]], axis=1), columns=cols, index=ops.index_of(rs, n))
    if op["s"] % 5 == 0:
        run.hit("probe/selected_columns")
        tbl = ops.selected(tbl)
    cd = {c: curve_of(lib, c) for c in op["curves"]}
    kw = arguments(op, grid)
    name = "curve_summary_table" if op["k"] == "table" else "summary_table"
    keep = tbl.copy(deep=True)
    try:
        if op["k"] == "table":
            r, dump = lib.classification.curve_summary_table(tbl, y, cd, op["ref"], **kw)
        else:
            run.hit("probe/summary")
            r, dump = lib.classification.summary_table(tbl, y, {"NLL": lib.classification.log_loss}, cd, op["ref"], **kw)
    except Exception as e:
        raise core.Violation("failed", "%s: %s raised %s: %s on\n%s\ny %s" % (what, name, type(e).__name__, e, keep, y.tolist()))
    run.hit("probe/table")
    if not keep.equals(tbl):
        raise core.Violation("input-changed", "%s: %s changed its table" % (what, name))
    if set(r.index) != set(op["methods"]) or len(r.index) != len(op["methods"]):
        raise core.Violation("table", "%s: rows are %s" % (what, list(r.index)))
    want = set((c, s) for c in op["curves"] + (["NLL"] if op["k"] == "summary" else []) for s in ("mean", "error", "p"))
    if set(r.columns) != want or len(r.columns) != len(want):
        raise core.Violation("table", "%s: columns are %s" % (what, list(r.columns)))
    if set(dump) != set((m, c) for m in op["methods"] for c in op["curves"]):
        raise core.Violation("table", "%s: curves for %s" % (what, sorted(dump)))
    run.log(name, r.values.tolist())
    for m in op["methods"]:
        for c in op["curves"]:
            run.hit("probe/" + c)
            auc, EB, p = [float(r.loc[m, (c, s)]) for s in ("mean", "error", "p")]
            if m != op["ref"]:
                run.hit("probe/paired")
            judge(run, ch, Model(c, y, lps[m], lps[op["ref"]], grid), "%s: %s %s/%s against %s (pairwise_CI=%s)" % (
                what, name, m, c, op["ref"], op["pairwise"]), op, n, auc, EB, p, dump[m, c], is_ref=m == op["ref"])
