"""C12: every score table is the one the recorded predictions imply, after any history."""
import math

import numpy as np
import pandas as pd

from vsim import core, hist, loader, ops, parties, refmodel, seams

PID = "C12"
PLAN = {"quick": dict(runs=10000, wall=420, min=600, recheck=48),
        "thorough": dict(runs=120000, wall=3000, min=6000, recheck=300)}
SHRINK = ("ops", "methods", "metrics", "losses")
RULE = ("A session of benchmarks, loss tables, summaries and direct statistics in one simulated process, with estimators and metrics "
        "that fail at seeded points (the call is then made again), the same inputs in other orders, and variants of earlier "
        "calls; every table is recomputed by a scalar reference model. Non-trivial: a table with at least two test points was "
        "compared. Distinct by digest of inputs and results.")
REAL = ["mlpaper.classification, regression, mlpaper, util (working tree)", "numpy, pandas, scipy"]
STUBS = ["estimators and metrics (parties): predictions are a function of the data, failures are injected"]
ASSUMPTIONS = ["round-off: 1e-7 relative", "the class decision between labels of equal predicted probability is free",
               "bootstrap error bars are left to C09 and C10"]
MUST_HIT = ("probe/clf_bench", "probe/selected_columns", "probe/reg_bench", "probe/loss_table", "probe/loss_summary", "probe/stats", "probe/pairwise",
            "probe/separate", "probe/t", "probe/bernstein", "probe/single_point", "probe/infinite_loss", "probe/zero_range",
            "probe/constant_difference", "probe/clipped", "probe/reordered", "probe/rejected", "fault/estimator_raises",
            "fault/metric_raises", "probe/retry_after_failure", "probe/cost_matrix", "probe/just_noise", "probe/bool_labels",
            "probe/odd_index", "probe/unnormalised", "probe/full_summary", "probe/integer_losses")
INF = float("inf")
LOSSES = ("NLL", "Brier", "sphere", "zero_one", "Brier_raw", "sphere_raw", "cost")


def gen_op(rng):
    k = rng.choice(["clf_bench", "reg_bench", "clf_table", "clf_table", "reg_table", "summary", "summary", "summary", "stats", "stats"])
    op = {"k": k, "s": rng.randrange(2 ** 31), "conf": rng.choice([0.95, 0.95, 0.9, 0.5, 0.99, 0.954, 0.683]), "pairwise": rng.random() < 0.5,
          "method": rng.choice(["t", "bernstein"])}
    if k.endswith("bench"):
        h = hist.gen_op(rng, k[:3])
        if h["data"]["ntr"] + h["data"]["nte"] > 50:
            h["data"].update(ntr=6, nte=9)
        h["data"]["nte"] = rng.choice([1, 2, 3, 6, 9])
        h["dir"] = None
        if len(h["methods"]) > 3:
            h["methods"] = h["methods"][:3]
        if rng.random() < 0.4:
            h["methods"].append({"kind": "JustNoise", "params": {"pc": rng.choice([0.5, 0.5, 0.0, 1.0, 3])}, "name": "iid" if all(m["name"] != "iid" for m in h["methods"]) else "noise"})
        if k == "clf_bench":
            op["curves"] = rng.sample(["AUC", "AP", "AUPRG"], 1) if h["n_labels"] == 2 else []
            if not op["curves"]:  # curves are binary only; losses alone go through the steps
                op["k"] = "clf_steps"
            op["losses"] = rng.sample(["NLL", "Brier", "sphere", "zero_one"], rng.choice([1, 2, 3]))
            op["minlp"] = rng.choice([None, None, -3.0, -20.0])
        else:
            op["losses"] = rng.sample(["NLL", "MSE", "MAE", "pinball"], rng.choice([1, 2, 3]))
            op["minstd"] = rng.choice([None, 0.5, 2.0])
        op["h"] = h
        op["limits"] = rng.random() < 0.5
        if rng.random() < 0.35:
            op["fail"] = [rng.choice(["estimator", "metric"]), rng.randrange(6)]
    elif k.endswith("table"):
        op.update(n=rng.choice([1, 2, 3, 5, 9]), nl=rng.choice([1, 2, 2, 3, 4] * 3 + [12]), zeros=rng.random() < 0.3, ties=rng.random() < 0.2,
                  off=rng.random() < 0.4, methods=rng.sample(ops.NAMES, rng.choice([1, 2, 3])), bool=rng.random() < 0.3,
                  losses=rng.sample(LOSSES if k == "clf_table" else ("NLL", "MSE", "MAE", "pinball"), rng.choice([1, 2, 3])))
        if rng.random() < 0.2:
            op["fail"] = ["metric", rng.randrange(4)]
        if rng.random() < 0.06:
            op["bad"] = rng.choice(["nan", "label", "short"])
    elif k == "summary":
        op.update(n=rng.choice([1, 2, 2, 3, 5, 8, 20, 60]), methods=rng.sample(ops.NAMES, rng.choice([1, 2, 3, 4])),
                  metrics=rng.sample(ops.METRICS, rng.choice([1, 2, 3])), kind=rng.choice(["unit", "unit", "wild", "zero_one", "big", "small", "const", "shift"]),
                  inf=rng.random() < 0.12, lim=rng.choice([None, "tight", "wide", "half"]), reorder=rng.random() < 0.4)
        op["ref"] = rng.randrange(4)
        if rng.random() < 0.25:  # counts, costs or flags, in the types users keep them in
            op.update(kind="counts", dtype=rng.sample(["b", "u1", "i1", "u2", "i4", "u8", "f8"], 2), inf=False)
        if rng.random() < 0.06:
            op["bad"] = rng.choice(["nan", "limits", "noref"])
    else:
        op.update(n=rng.choice([1, 2, 3, 5, 10, 30, 100]), kind=rng.choice(["unit", "sym", "big", "small", "const", "ints", "offset"]),
                  lim=rng.choice(["tight", "wide", "asym", None]), min_EB=rng.choice([0.0, 0.0, 0.001, 0.1]))
        if rng.random() < 0.06:
            op["bad"] = rng.choice(["nan", "limits"])
    if "n" in op and rng.random() < 0.04:
        op["n"] = rng.choice([250, 600, 1500])
    return op


def generate(rng, i, tier):
    seq = []
    for _ in range(rng.choice([1, 2, 3])):
        if seq and rng.random() < 0.35:  # a variant of an earlier call
            op = dict(rng.choice(seq))
            if "h" in op:
                op["h"], _ = hist.variant(rng, dict(op["h"], methods=[m for m in op["h"]["methods"] if m["kind"] != "JustNoise"]))
                if op["k"] == "clf_bench" and op["h"]["n_labels"] != 2:
                    op["k"] = "clf_steps"
                op.pop("fail", None)
                if not op["h"]["methods"]:
                    continue
            op["pairwise"] = rng.random() < 0.5
            op["conf"] = rng.choice([0.95, 0.8, 0.954, 0.683, 0.68])
        else:
            op = gen_op(rng)
        seq.append(op)
    return {"ops": seq or [gen_op(rng)], "seed": rng.randrange(2 ** 32)}


def fixup(sc):
    for op in sc["ops"]:
        if "methods" in op and not op["methods"]:
            return None
        if "h" in op and not op["h"]["methods"]:
            return None
        for key in ("losses", "metrics"):
            if key in op and not op[key]:
                return None
    return sc if sc["ops"] else None


# -- the model ----------------------------------------------------------------------


def cost_matrix(nl, s):
    return np.random.RandomState(s % 2 ** 31).randint(0, 5, size=(nl, nl + 1)).astype(float)


def cost_loss(y, lp, mat):
    out = []
    for yi, row in zip(np.asarray(y).astype(int).tolist(), np.asarray(lp, dtype=float).tolist()):
        p = [math.exp(v) for v in row]
        E = [math.fsum(p[j] * mat[j, a] for j in range(len(p))) for a in range(mat.shape[1])]
        b = min(E)
        out.append(frozenset(float(mat[yi, a]) for a in range(len(E)) if E[a] <= b + 1e-9))
    return out


def loss_model(name, y, lp, op):
    return cost_loss(y, lp, cost_matrix(lp.shape[1], op["s"])) if name == "cost" else refmodel.clf_loss(name, y, lp)


def flat(ls):
    """Losses as floats, or None where the optimal decision is not unique."""
    out = []
    for v in ls:
        if isinstance(v, frozenset):
            if len(v) != 1:
                return None
            v = next(iter(v))
        out.append(v)
    return out


def EB_p(x, conf, lower, upper, method, min_EB=0.0, run=None):
    """(mean, error bar, p or None when round-off decides it)."""
    mu = refmodel.mean(x)
    EB, p = refmodel.t_stats(x, conf) if method == "t" else refmodel.bernstein_stats(x, lower, upper, conf)
    out = refmodel.clip_EB(mu, EB, lower, upper, min_EB)
    if run is not None and out != EB:
        run.hit("probe/clipped")
    fin = [v for v in x if math.isfinite(v)]
    if len(fin) == len(x) and len(x) > 1 and any(fin):
        sd, sc = math.sqrt(refmodel._var(x, 1)), max(abs(v) for v in fin)
        if sd < 1e-11 * sc and sd > 0 and abs(mu) < 1e-6 * sc:
            p = None
    return mu, out, p


def p_close(a, b):
    return abs(a - b) <= 1e-9 + 1e-5 * abs(b)


def expect(run, what, got, want, scale, info=""):
    mu, EB, p = got
    wm, wE, wp = want
    tiny = 1e-11 * scale + 1e-300
    if not refmodel.close([mu], [wm], 1e-8, tiny):
        raise core.Violation("mean", "%s: mean %r, expected %r %s" % (what, mu, wm, info))
    if wE is None:
        if EB == EB:
            raise core.Violation("reference", "%s: error bar %r of the reference %s" % (what, EB, info))
    elif not refmodel.close([EB], [wE], 1e-7, tiny):
        raise core.Violation("error-bar", "%s: error bar %r, expected %r %s" % (what, EB, wE, info))
    if wp == "nan":
        if p == p:
            raise core.Violation("reference", "%s: p-value %r of the reference %s" % (what, p, info))
    elif wp is None:
        if not 0 <= p <= 1:
            raise core.Violation("p-value", "%s: p-value %r %s" % (what, p, info))
    elif not (p == p and p_close(p, wp)):
        raise core.Violation("p-value", "%s: p-value %r, expected %r %s" % (what, p, wp, info))


def check_summary(run, what, tbl, losses, methods, metrics, ref, pairwise, conf, method, limits, extra=()):
    """losses[metric][method]: list of floats or None when not unique."""
    try:
        names = list(tbl.columns.names), tbl.index.name
        rows, cols = [str(v) for v in tbl.index], [tuple(c) for c in tbl.columns]
    except Exception as e:
        raise core.Violation("malformed", "%s: %r" % (what, e))
    if sorted(rows) != sorted(methods):
        raise core.Violation("labels", "%s: rows %s for methods %s" % (what, rows, methods))
    if sorted(cols) != sorted((m, s) for m in list(metrics) + list(extra) for s in ("mean", "error", "p")):
        raise core.Violation("labels", "%s: columns %s for metrics %s" % (what, cols, list(metrics) + list(extra)))
    if names != (["metric", "stat"], "method"):
        raise core.Violation("labels", "%s: the axes are named %s" % (what, names))
    run.hit("probe/pairwise" if pairwise else "probe/separate")
    for metric in metrics:
        lower, upper = limits.get(metric, (-INF, INF))
        r = losses[metric][ref]
        for m in methods:
            x = losses[metric][m]
            if x is None or r is None:
                continue
            got = [float(tbl.loc[m, (metric, s)]) for s in ("mean", "error", "p")]
            d = [a - b for a, b in zip(x, r)]
            scale = max([abs(v) for v in list(x) + list(r) if math.isfinite(v)] or [0.0])
            R = upper - lower
            if len(x) == 1:
                run.hit("probe/single_point")
            else:
                run.nontrivial = True
            if any(math.isinf(v) for v in x):
                run.hit("probe/infinite_loss")
            if R == 0:
                run.hit("probe/zero_range")
            if len(x) > 1 and m != ref and len(set(d)) == 1:
                run.hit("probe/constant_difference")
            if pairwise:
                want = (refmodel.mean(x), None, "nan") if m == ref else (refmodel.mean(x),) + EB_p(d, conf, -R, R, method, run=run)[1:]
            else:
                mu, EB, _ = EB_p(x, conf, lower, upper, method, run=run)
                want = (mu, EB, "nan" if m == ref else EB_p(d, conf, -R, R, method)[2])
            expect(run, "%s: %s of %s%s" % (what, metric, m, "" if m == ref else " against %s" % ref), got, want, scale,
                   "(%s, confidence %g, limits %s, losses %s, reference %s)" % (method, conf, (lower, upper), x[:12], r[:12]))


# -- the operations -----------------------------------------------------------------


class Failing(Exception):
    pass


def with_faults(run, op, proc, call, what):
    """Make the call with a party failing at a seeded event, then again without: the answer counts."""
    if op.get("fail"):
        kind, at = op["fail"]
        seen = [0]

        def party(ev, who):
            if (kind == "metric") == ev.startswith("metric"):
                seen[0] += 1
                if seen[0] == at + 1:
                    raise Failing("injected at %s %d" % (ev, at))

        proc.party = party
        try:
            call()
        except Exception:
            if seen[0] > at:
                run.hit("fault/%s_raises" % kind)
                run.hit("probe/retry_after_failure")
        finally:
            proc.party = None
    try:
        return call()
    except Exception as e:
        raise core.Violation("failed", "%s raised %s: %s" % (what, type(e).__name__, str(e)[:300]))


def make(lib, m, task, nl):
    if m["kind"] == "JustNoise":
        if task == "reg":
            return lib.regression.JustNoise()
        return lib.classification.JustNoise(**ops.spare(dict(n_labels=nl, pseudo_count=m["params"].get("pc", 0.5)), n_labels=2, pseudo_count=0.0))
    return parties.make(m)


def predictions(op, h, data, run):
    """Model predictions: {name: log table} or {name: (mu, std)}."""
    X, y, Xt = data
    out = {}
    for m in h["methods"]:
        if m["kind"] == "JustNoise":
            run.hit("probe/just_noise")
            n = len(Xt)
            if h["task"] == "clf":
                yi = np.asarray(y).astype(int)
                c = [m["params"].get("pc", 0.5) + float(np.sum(yi == j)) for j in range(h["n_labels"])]
                t = math.fsum(c)
                out[m["name"]] = np.array([[v / t for v in c]] * n)
            else:
                mu = refmodel.mean(y)
                out[m["name"]] = (np.full(n, mu), np.full(n, math.sqrt(refmodel._var([float(v) for v in y], 0))))
        elif h["task"] == "clf":
            out[m["name"]] = parties.model_clf(m, X, y, Xt, h["n_labels"])
        else:
            out[m["name"]] = parties.model_reg(m, X, y, Xt)
    return out


def lims(op, losses):
    out = {}
    if not op.get("limits"):
        return out
    for j, metric in enumerate(losses):
        v = [x for m in losses[metric] for x in (losses[metric][m] or [0.0, 1.0])]  # none: a zero-one loss that a tie leaves open
        if v and all(math.isfinite(x) for x in v) and (op["s"] + j) % 3:
            out[metric] = (min(v) - 0.25, max(v) + 0.5)
    return out


def noise_alone(lib, m, task, nl, data, want, what):
    """The baseline by itself, also when it is fit again."""
    X, y, Xt = data
    obj = make(lib, m, task, nl)
    try:
        if len(y) >= 4:
            obj.fit(X[2:], y[2:])
        obj.fit(X, y)
        got = np.exp(obj.predict_log_proba(Xt)) if task == "clf" else np.stack(obj.predict(Xt, return_std=True))
    except Exception as e:
        raise core.Violation("failed", "%sJustNoise (%s) raised %s: %s" % (what, task, type(e).__name__, str(e)[:300]))
    want = np.asarray(want, dtype=float)
    if got.shape != want.shape or not np.allclose(got, want, rtol=1e-8, atol=1e-11 * (1 + np.max(np.abs(np.asarray(y, dtype=float))))):
        raise core.Violation("baseline", "%sJustNoise (%s, %s) predicts %s, expected %s from targets %s" % (
            what, task, m["params"], got[:3].tolist(), want[:3].tolist(), y.tolist()))


def bench(lib, op, what, run, proc):
    h = op["h"]
    task = h["task"]
    data = hist.build_data(h)
    X, y, Xt = data
    rs = np.random.RandomState(op["s"])
    n = len(Xt)
    names = [m["name"] for m in h["methods"]]
    ref = names[op["s"] % len(names)]
    objs = lambda: {m["name"]: make(lib, m, task, h["n_labels"]) for m in h["methods"]}
    pred = predictions(op, h, data, run)
    for m in h["methods"]:
        if m["kind"] == "JustNoise":
            noise_alone(lib, m, task, h["n_labels"], data, pred[m["name"]], what)
    losses, tables = {}, {}
    if task == "clf":
        yt = rs.randint(h["n_labels"], size=n).astype(y.dtype)
        if y.dtype.kind == "b":
            run.hit("probe/bool_labels")
        if op["k"] == "clf_bench" and op["minlp"] is None and any(v <= 0 for m in names for v in np.ravel(pred[m])):
            op = dict(op, minlp=-50.0)  # curves need finite scores
        floor = -INF if op["minlp"] is None else op["minlp"]
        for m in names:
            tables[m] = refmodel.pred_table(pred[m], floor)
        for L in op["losses"]:
            losses[L] = {m: flat(refmodel.clf_loss(L, yt, tables[m])) for m in names}
        if not all(v is None or all(math.isfinite(q) for q in v) for L in losses.values() for v in L.values()):
            # an infinite loss shared with the reference has no difference: not a table the library offers
            for L in list(losses):
                if any(v is not None and not all(math.isfinite(q) for q in v) for v in losses[L].values()):
                    del losses[L]
            if not losses:
                return
    else:
        y = y.astype(float)
        yt = rs.randn(n)
        std = 0.0 if op["minstd"] is None else op["minstd"]
        for m in names:
            tables[m] = (pred[m][0], [max(std, v) for v in pred[m][1]])
        if any(v <= 0 for m in names for v in tables[m][1]):
            return
        for L in op["losses"]:
            losses[L] = {m: refmodel.reg_loss(L, yt, *tables[m]) for m in names}
    limits = lims(op, losses)
    if task == "clf" and op["k"] == "clf_bench":
        run.hit("probe/clf_bench")
        kw = {} if op["minlp"] is None else {"min_pred_log_prob": op["minlp"]}
        call = lambda: lib.classification.just_benchmark(
            X, y, Xt, yt, h["n_labels"], objs(), ops.clf_losses(lib, list(losses)), ops.curves(lib, op["curves"]), ref,
            pairwise_CI=op["pairwise"], method_EB=op["method"], limits=limits, **kw)
        tbl, dump = with_faults(run, op, proc, call, what + "just_benchmark (classification)")
        extra = op["curves"]
        for c in extra:
            for m in names:
                pts, kind = refmodel.curve_bands(c, [bool(v) for v in yt], [float(v) for v in tables[m][:, 1]])
                lo, hi = refmodel.band_area(pts, kind)
                # equal scores up to round-off decide ties
                s = sorted(tables[m][:, 1])
                if any(0 < abs(a - b) < 1e-9 for a, b in zip(s, s[1:])) or not np.all(np.isfinite(tables[m][:, 1])):
                    continue
                got = float(tbl.loc[m, (c, "mean")])
                if len(set(s)) == len(s) and not (lo - 1e-6 <= got <= hi + 1e-6):
                    raise core.Violation("mean", "%s%s of %s is %r, expected %r" % (what, c, m, got, (lo, hi)))
    elif task == "clf":
        fl = {} if op["minlp"] is None else {"min_log_prob": op["minlp"]}

        def call():
            t = lib.classification.get_pred_log_prob(X, y, Xt, h["n_labels"], objs(), **fl)
            lt = lib.classification.loss_table(t, yt, ops.clf_losses(lib, list(losses)))
            return lib.core.loss_summary_table(lt, ref, pairwise_CI=op["pairwise"], method_EB=op["method"], limits=limits)

        tbl = with_faults(run, op, proc, call, what + "get_pred_log_prob, loss_table, loss_summary_table")
        extra = []
    else:
        run.hit("probe/reg_bench")
        kw = {} if op["minstd"] is None else {"min_std": op["minstd"]}
        call = lambda: lib.regression.just_benchmark(
            X, y, Xt, yt, objs(), ops.reg_losses(lib, op["losses"]), ref, pairwise_CI=op["pairwise"], method_EB=op["method"],
            limits=limits, **kw)
        tbl = with_faults(run, op, proc, call, what + "just_benchmark (regression)")
        extra = []
    run.hit("probe/" + op["method"])
    run.log(op["k"], tbl.values.tolist())
    check_summary(run, what + op["k"], tbl, losses, names, list(losses), ref, op["pairwise"], 0.95, op["method"], limits, extra)


def loss_tables(lib, op, what, run, proc):
    rs = np.random.RandomState(op["s"])
    n, names = op["n"], op["methods"]
    ix = ops.index_of(rs, n)
    if ix is not None:
        run.hit("probe/odd_index")
    if op["k"] == "clf_table":
        nl = op["nl"]
        tbl = ops.pred_table(rs, n, nl, names, op["zeros"], op["ties"], ix)
        y = rs.randint(nl, size=n)
        if nl == 2 and op["bool"]:
            y = y.astype(bool)
            run.hit("probe/bool_labels")
        off = rs.randn(n, 1) * 3 if op["off"] else 0.0
        if op["off"]:
            run.hit("probe/unnormalised")
        tbl = tbl + off
        cl = lib.classification
        pool = {"NLL": cl.log_loss, "Brier": cl.brier_loss, "sphere": cl.spherical_loss, "zero_one": cl.hard_loss,
                "Brier_raw": lambda y, p: cl.brier_loss(y, p, rescale=False), "sphere_raw": lambda y, p: cl.spherical_loss(y, p, rescale=False),
                "cost": lambda y, p: cl.hard_loss(y, p, loss_mat=cost_matrix(nl, op["s"]))}
        if "cost" in op["losses"]:
            run.hit("probe/cost_matrix")
        f = {k: ops.Metric(k, pool[k]) for k in op["losses"]}
        go = lambda t=tbl, yy=y: cl.loss_table(t, yy, f, **({"assume_normalized": True} if not op["off"] and op["s"] % 3 == 0 else {}))
        model = lambda L, m: loss_model(L, y, np.array([refmodel.log_normalise(r) for r in tbl[m].values.tolist()]), op)
    else:
        tbl = ops.gauss_table(rs, n, names, ix)
        y = rs.randn(n)
        # a user's own loss need not refuse anything
        f = ops.reg_losses(lib, [L for L in op["losses"] if L != "pinball" or not op.get("bad")] or ["NLL"])
        go = lambda t=tbl, yy=y: lib.regression.loss_table(t, yy, f)
        model = lambda L, m: refmodel.reg_loss(L, y, tbl[(m, "mu")].values, tbl[(m, "std")].values)
    if op["s"] % 5 == 0:
        run.hit("probe/selected_columns")
        tbl = ops.selected(tbl)
    if op.get("bad"):
        t, yy = tbl.copy(), y.copy()
        if op["bad"] == "nan":
            t.iloc[n - 1, 0] = np.nan
        elif op["bad"] == "label":
            if op["k"] == "clf_table":
                yy = yy.astype(int)
                yy[0] = op["nl"]
            else:
                yy[0] = np.nan
        else:
            yy = np.concatenate([yy, yy[:1]])
        try:
            r = go(t, yy)
        except Exception:
            run.hit("probe/rejected")
            return
        raise core.Violation("accepted", "%sloss_table accepted invalid input (%s):\n%s" % (what, op["bad"], r))
    keep = tbl.copy(deep=True), y.copy()
    lt = with_faults(run, op, proc, lambda: go(tbl, y), what + "loss_table")
    run.hit("probe/loss_table")
    run.log(op["k"], lt.values.tolist())
    if n > 1:
        run.nontrivial = True
    if not (keep[0].equals(tbl) and np.array_equal(keep[1], y)):
        raise core.Violation("input-changed", "%sloss_table changed its arguments" % what)
    if sorted(map(tuple, lt.columns)) != sorted((L, m) for L in op["losses"] for m in names) or list(lt.columns.names) != ["metric", "method"]:
        raise core.Violation("labels", "%sloss_table has columns %s" % (what, list(lt.columns)))
    if not lt.index.equals(tbl.index):
        raise core.Violation("labels", "%sloss_table has rows %s, not %s" % (what, list(lt.index), list(tbl.index)))

    def compare():
        for L in op["losses"]:
            for m in names:
                want = model(L, m)
                got = lt[(L, m)].values
                if not refmodel.losses_match(got, want, 1e-8, 1e-9):
                    raise core.Violation("loss", "%s%s of %s: losses %s, expected %s (labels %s, predictions\n%s)" % (
                        what, L, m, got.tolist(), want, y.tolist(), tbl[m].values))

    compare()
    if op["s"] % 4 == 1:  # the caller edits the very same objects, and calls again
        run.hit("probe/edited_in_place")
        y[:] = y[::-1].copy() if n > 1 else ((y + 1) % op["nl"] if op["k"] == "clf_table" and y.dtype != bool else y)
        for m in names[:1 + op["s"] % 2]:
            for c in [c for c in tbl.columns if c[0] == m]:
                tbl[c] = np.roll(tbl[c].values, 1)
        lt = with_faults(run, {}, proc, lambda: go(tbl, y), what + "loss_table of edited arguments")
        what = what + "(edited) "
        compare()
    # and on to the summary, from the losses just checked
    losses = {L: {m: [float(v) for v in lt[(L, m)].values] for m in names} for L in op["losses"]}
    for L in list(losses):
        if any(not math.isfinite(v) for m in names for v in losses[L][m]):
            return
    ref = names[op["s"] % len(names)]
    tblS = with_faults(run, {}, proc, lambda: lib.core.loss_summary_table(
        lt, ref, **ops.spare(dict(pairwise_CI=op["pairwise"], confidence=op["conf"], method_EB=op["method"]), **ops.SUMMARY_DEFAULTS)), what + "loss_summary_table")
    check_summary(run, what + "loss_summary_table", tblS, losses, names, op["losses"], ref, op["pairwise"], op["conf"], op["method"], {})
    if op["k"] == "clf_table" and op["nl"] == 2 and np.all(np.isfinite(tbl.values)):
        # the same, and the curves, in one call
        run.hit("probe/full_summary")
        limits = lims(dict(op, limits=op["s"] % 2 == 0), losses)
        curves = ["AUC", "AP", "AUPRG"][op["s"] % 3:][:1 + op["s"] % 2]
        full, dump = with_faults(run, {}, proc, lambda: lib.classification.summary_table(
            tbl, y, f, ops.curves(lib, curves), ref, n_boot=5, **ops.spare(dict(
                pairwise_CI=op["pairwise"], confidence=op["conf"], method_EB=op["method"], limits=limits), **ops.SUMMARY_DEFAULTS)), what + "summary_table")
        check_summary(run, what + "summary_table", full, losses, names, op["losses"], ref, op["pairwise"], op["conf"], op["method"],
                      limits, curves)
        if sorted(map(tuple, dump)) != sorted((m, c) for m in names for c in curves):
            raise core.Violation("labels", "%ssummary_table has curves %s" % (what, sorted(dump)))


def sample(kind, n, rs):
    return {"unit": lambda: rs.rand(n), "wild": lambda: rs.randn(n) * 10.0 ** rs.randint(-3, 4, size=n), "zero_one": lambda: (rs.rand(n) < 0.3) * 1.0,
            "big": lambda: rs.rand(n) * 1e8, "small": lambda: rs.rand(n) * 1e-8, "const": lambda: np.full(n, float(rs.choice([0.0, 0.5, 0.1]))),
            "shift": lambda: rs.rand(n) * 0.01 + 5, "sym": lambda: rs.randn(n), "ints": lambda: rs.randint(-2, 3, size=n) * 1.0,
            "offset": lambda: rs.randn(n) + 100.0, "counts": lambda: rs.randint(0, rs.choice([2, 5, 120]), size=n) * 1.0}[kind]()


def summary(lib, op, what, run, proc):
    rs = np.random.RandomState(op["s"])
    n, names, metrics = op["n"], op["methods"], op["metrics"]
    ref = names[op["ref"] % len(names)]
    vals = {L: {m: sample(op["kind"], n, rs) for m in names} for L in metrics}
    if op["kind"] == "shift" and len(names) > 1:
        other = [m for m in names if m != ref][0]
        vals[metrics[0]][other] = vals[metrics[0]][ref] + 0.25
    if op["inf"] and len(names) > 1:
        vals[metrics[-1]][[m for m in names if m != ref][0]][rs.randint(n)] = INF
    if "b" in op.get("dtype", ()):
        vals = {L: {m: np.minimum(vals[L][m], 1.0) for m in names} for L in metrics}
    limits = {}
    for j, L in enumerate(metrics):
        allv = np.concatenate([vals[L][m] for m in names])
        fin = allv[np.isfinite(allv)]
        hi = INF if np.isinf(allv).any() else float(fin.max())
        if op["lim"] == "tight":
            limits[L] = (float(fin.min()), hi)
        elif op["lim"] == "wide":
            limits[L] = (float(fin.min()) - 1.0, hi + 2.0)
        elif op["lim"] == "half" and j == 0:
            limits[L] = (float(fin.min()), INF)
    cols = [(L, m) for L in metrics for m in names]
    ix = ops.index_of(rs, n)
    if ix is not None:
        run.hit("probe/odd_index")

    def frame(cs, order):
        out = pd.DataFrame(np.stack([vals[L][m][order] for L, m in cs], axis=1), columns=pd.MultiIndex.from_tuples(
            cs, names=["metric", "method"]), index=None if ix is None else np.asarray(ix, dtype=object)[order])
        if op.get("dtype"):
            run.hit("probe/integer_losses")
            out = out.astype({c: op["dtype"][cols.index(c) % 2] if op["s"] % 2 else op["dtype"][0] for c in cs})
        return out

    tbl = frame(cols, np.arange(n))
    if op["s"] % 5 == 0:
        run.hit("probe/selected_columns")
        tbl = ops.selected(tbl)
    kw = ops.spare(dict(pairwise_CI=op["pairwise"], confidence=op["conf"], method_EB=op["method"], limits=limits), **ops.SUMMARY_DEFAULTS)
    if op.get("bad"):
        t, r = tbl.copy(), ref
        if op["bad"] == "nan":
            t.iloc[n - 1, len(cols) - 1] = np.nan
        elif op["bad"] == "limits":
            L = metrics[0]
            v = np.concatenate([vals[L][m] for m in names])
            kw["limits"] = dict(limits)
            kw["limits"][L] = (float(np.min(v)), float(np.max(v[np.isfinite(v)])) - 1e-3 * (1 + abs(float(np.max(v[np.isfinite(v)])))))
            if kw["limits"][L][1] < kw["limits"][L][0]:
                kw["limits"][L] = (float(np.max(v[np.isfinite(v)])) + 1.0, INF)
        else:
            r = "nobody"
        try:
            out = lib.core.loss_summary_table(t, r, **kw)
        except Exception:
            run.hit("probe/rejected")
            return
        raise core.Violation("accepted", "%sloss_summary_table accepted invalid input (%s, %s):\n%s\n%s" % (what, op["bad"], kw, t, out))
    keep = tbl.copy(deep=True)
    out = with_faults(run, {}, proc, lambda: lib.core.loss_summary_table(tbl, ref, **kw), what + "loss_summary_table of\n%s" % tbl)
    if not keep.equals(tbl):
        raise core.Violation("input-changed", "%sloss_summary_table changed its table" % what)
    run.hit("probe/loss_summary")
    run.hit("probe/" + op["method"])
    run.log("summary", out.values.tolist())
    losses = {L: {m: [float(v) for v in vals[L][m]] for m in names} for L in metrics}
    check_summary(run, what + "loss_summary_table", out, losses, names, metrics, ref, op["pairwise"], op["conf"], op["method"], limits)
    if op["s"] % 4 == 1:  # the caller edits the very same table, and calls again
        run.hit("probe/edited_in_place")
        L, m = cols[op["s"] % len(cols)]
        vals[L][m] = np.full(n, vals[L][m][np.isfinite(vals[L][m])][0]) if op["s"] % 8 == 1 and np.isfinite(vals[L][m]).any() else vals[L][m][::-1].copy()
        tbl.iloc[:, list(tbl.columns).index((L, m))] = vals[L][m].astype(tbl.dtypes[(L, m)])
        losses[L][m] = [float(v) for v in vals[L][m]]
        out = with_faults(run, {}, proc, lambda: lib.core.loss_summary_table(tbl, ref, **kw), what + "loss_summary_table of an edited table")
        check_summary(run, what + "loss_summary_table (edited)", out, losses, names, metrics, ref, op["pairwise"], op["conf"], op["method"], limits)
    if op["reorder"]:
        run.hit("probe/reordered")
        tbl2 = frame([cols[j] for j in rs.permutation(len(cols))], rs.permutation(n))
        out2 = with_faults(run, {}, proc, lambda: lib.core.loss_summary_table(tbl2, ref, **kw), what + "loss_summary_table, reordered")
        check_summary(run, what + "loss_summary_table, reordered", out2, losses, names, metrics, ref, op["pairwise"], op["conf"], op["method"], limits)


def stats(lib, op, what, run, proc):
    x = sample(op["kind"], op["n"], np.random.RandomState(op["s"]))
    stats_of(lib, op, what, run, x)
    if op["s"] % 4 == 1 and not op.get("bad"):  # the caller edits the very same array, and calls again
        run.hit("probe/edited_in_place")
        x[:] = np.roll(x, 1) if op["s"] % 8 == 1 else x[0]
        stats_of(lib, op, what + "(edited) ", run, x)


def stats_of(lib, op, what, run, x):
    c = lib.core
    xs = [float(v) for v in x]
    m, conf = op["method"], op["conf"]
    lo, hi = min(xs), max(xs)
    lower, upper = {"tight": (lo, hi), "wide": (min(-abs(lo) * 2, -1.0), abs(hi) * 2 + 1.0), "asym": (lo - 0.1, hi + 3.0), None: (-INF, INF)}[op["lim"]]
    if op.get("bad"):
        z = x.copy()
        if op["bad"] == "nan":
            z[-1] = np.nan
        else:
            lower, upper = hi + 1.0, hi + 2.0
        for f in (lambda: c.get_mean_EB_test(z, conf, lower=lower, upper=upper, method=m), lambda: c.get_mean_and_EB(z, conf, lower=lower, upper=upper, method=m)):
            try:
                r = f()
            except Exception:
                continue
            raise core.Violation("accepted", "%s%s accepted (%s, limits %s): %r" % (what, z.tolist(), m, (lower, upper), r))
        run.hit("probe/rejected")
        return
    triv = refmodel.clip_EB(refmodel.mean(xs), INF, lower, upper)
    min_EB = op["min_EB"] if 2 * op["min_EB"] <= upper - lower and op["min_EB"] <= triv else 0.0
    run.hit("probe/stats")
    run.hit("probe/" + m)
    if len(xs) > 1:
        run.nontrivial = True
    want = EB_p(xs, conf, lower, upper, m, min_EB, run)
    scale = max(abs(v) for v in xs)
    info = "(%s, confidence %g, limits %s, min_EB %g, %s)" % (m, conf, (lower, upper), min_EB, xs[:12])
    kw = ops.spare(dict(confidence=conf, min_EB=min_EB, lower=lower, upper=upper, method=m), **ops.MEAN_DEFAULTS)
    kc = ops.spare(dict(confidence=conf), **ops.MEAN_DEFAULTS)
    try:
        a = [float(v) for v in c.get_mean_EB_test(x, **kw)]
        b = [float(v) for v in c.get_mean_and_EB(x, **kw)]
        p = float(c.get_test(x, **{k: v for k, v in kw.items() if k not in ("confidence", "min_EB")}))
        if m == "t":
            raw = float(c.t_EB(x, **kc)), float(c.t_test(x))
            wraw = refmodel.t_stats(xs, conf)
        else:
            raw = float(c.bernstein_EB(x, lower, upper, **kc)), float(c.bernstein_test(x, lower, upper))
            wraw = refmodel.bernstein_stats(xs, lower, upper, conf)
    except Exception as e:
        raise core.Violation("failed", "%sstatistics raised %s: %s %s" % (what, type(e).__name__, e, info))
    run.log("stats", a, b, p, raw)
    expect(run, what + "get_mean_EB_test", a, want, scale, info)
    expect(run, what + "get_mean_and_EB, get_test", b + [p], want, scale, info)
    expect(run, what + "the %s functions" % m, [want[0], raw[0], raw[1]], (want[0], wraw[0], want[2]), scale, info)


def execute(sc, run):
    proc = seams.Proc("p", None, {}, entropy="c12")
    with seams.use(proc), core.quiet(), np.errstate(all="ignore"):
        lib = loader.fresh()
        np.random.seed(sc["seed"])
        for k, op in enumerate(sc["ops"]):
            f = {"clf_bench": bench, "clf_steps": bench, "reg_bench": bench, "clf_table": loss_tables, "reg_table": loss_tables, "summary": summary, "stats": stats}
            f[op["k"]](lib, op, "op %d: " % k, run, proc)
    run.simtime = proc.elapsed()
