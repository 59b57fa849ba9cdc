"""C04: a method is scored on the distribution it reported, or not at all."""
import numpy as np

from vsim import ambient, core, hist, loader, ops, parties, refmodel, seams

PID = "C04"
PLAN = {"quick": dict(runs=8000, wall=420, min=800, recheck=64), "thorough": dict(runs=150000, wall=3000, min=8000, recheck=400)}
SHRINK = ("calls", "methods")
RULE = ("Seeded sessions of benchmark calls over sets of estimators, some of which misbehave: unnormalised, extreme, "
        "oddly typed or laid out reports, buffers they share or overwrite once the call moved on, and reports that are no "
        "distribution at all (NaN, infinite, impossible rows, wrong shapes). Non-trivial: at least one misbehaving "
        "estimator was asked. Distinct by digest of (calls, misbehaviours, outcomes).")
REAL = ["mlpaper classification and regression (working tree): prediction tables, loss tables, summaries, benchmarks",
        "numpy, pandas, scipy, joblib without a directory"]
STUBS = ["estimators (Byzantine parties)"]
ASSUMPTIONS = ["scores are those of the library's own losses", "a report that numpy cannot compare shapes with (a list, None) "
               "is refused by any means"]
GOOD_CLF = ("plain", "offset", "huge_offset", "tiny", "zeros", "f4", "fortran", "strided", "readonly", "int", "shared_buffer",
            "scribble_later", "deep", "one_sided")
BAD_CLF = ("nan", "posinf", "impossible_row", "neg_proba", "short_rows", "long_rows", "wide", "narrow", "flat", "one_row",
           "column", "transposed", "three_d", "all_nan", "nan_last")
GOOD_REG = ("plain", "f4", "strided", "readonly", "int", "shared_buffer", "scribble_later", "huge", "tiny_std", "neg_std")
BAD_REG = ("nan_mu", "nan_std", "inf_mu", "inf_std", "zero_std", "bad_neg_std", "short_rows", "long_rows", "column", "one_row",
           "scalar", "std_short", "std_column", "neginf_mu", "nan_last", "mu_one", "mu_column", "std_one", "mu_scalar")
MUST_HIT = tuple("fault/" + b for b in GOOD_CLF[1:] + BAD_CLF + GOOD_REG[1:] + BAD_REG) + (
    "probe/refused", "probe/scored", "probe/uniform_from_floor", "probe/call_after_refusal", "probe/benchmark_refused")


class Byz:
    """A classifier or regressor whose report is scripted."""

    def __init__(self, spec, task, n_labels, world):
        self.spec, self.task, self.n_labels, self.world = spec, task, n_labels, world
        self.reported, self.buffers = None, []
        if task == "clf" and spec["proba"]:
            self.predict_log_proba = self._no
            if spec["proba"] == "bare":
                del self.predict_log_proba
        if task == "clf" and spec["proba"] is None:
            self.predict_log_proba = self._log

    def ident(self):
        return "byz:%s" % self.spec["name"]

    def _no(self, Xt):
        raise AttributeError("no log proba")

    def fit(self, X, y):
        self.world.moved_on(self)
        parties._event("fit", self)
        return self

    def _rs(self):
        return parties._rs(parties.digest("byz", {"s": self.spec["s"], "n": self.spec["name"]}))

    def _give(self, arr, tag):
        """Hand out an array, in the layout the script wants."""
        how = self.spec["how"]
        if how == "fortran":
            arr = np.asfortranarray(arr)
        elif how == "strided":
            big = np.zeros(tuple(2 * v for v in arr.shape), dtype=arr.dtype) - 3.25
            big[tuple(slice(None, None, 2) for _ in arr.shape)] = arr
            arr = big[tuple(slice(None, None, 2) for _ in arr.shape)]
        elif how == "f4":
            arr = arr.astype(np.float32)
        elif how == "shared_buffer":
            arr = self.world.share(arr, tag)
        elif how == "scribble_later":
            self.world.later.append((self, arr))
        if how == "readonly":
            arr.flags.writeable = False
        self.buffers.append((arr, np.array(arr, copy=True)))
        return arr

    # -- classification ---------------------------------------------------
    def raw(self, n):
        """Log scores the script reports (before layout)."""
        rs, how, k = self._rs(), self.spec["how"], self.n_labels
        lp = np.log(rs.dirichlet(np.ones(k), size=n) + 1e-9)
        r, c = rs.randint(n), rs.randint(k)
        if how == "offset":
            lp = lp + rs.randn(n, 1) * 5
        elif how == "huge_offset":
            lp = lp + np.where(rs.rand(n, 1) < 0.5, 600.0, -600.0)
        elif how == "tiny":
            lp = lp * rs.choice([1e-3, 40.0])
        elif how in ("zeros", "one_sided"):
            z = rs.rand(n, k) < (0.4 if how == "zeros" else 1.1)
            z[np.arange(n), rs.randint(k, size=n)] = False
            lp[z] = -np.inf
        elif how == "int":
            lp = -rs.randint(0, 6, size=(n, k))
        elif how == "deep":
            lp = lp - 1000.0
        elif how == "nan":
            lp[r, c] = np.nan
        elif how == "nan_last":
            lp[-1, -1] = np.nan
        elif how == "all_nan":
            lp[:] = np.nan
        elif how == "posinf":
            lp[r, c] = np.inf
        elif how == "impossible_row":
            lp[r, :] = -np.inf
        elif how == "short_rows":
            lp = lp[:-1]
        elif how == "long_rows":
            lp = np.concatenate([lp, lp[:1]])
        elif how == "wide":
            lp = np.concatenate([lp, lp[:, :1]], axis=1)
        elif how == "narrow":
            lp = lp[:, :-1]
        elif how == "flat":
            lp = lp[:, 0]
        elif how == "one_row":
            lp = lp[:1]
        elif how == "column":
            lp = lp[:, :1]
        elif how == "transposed":
            lp = lp.T
        elif how == "three_d":
            lp = lp[:, :, None]
        return np.array(lp)

    def _log(self, Xt):
        parties._event("predict_log_proba", self)
        self.asked = True
        lp = self.raw(len(Xt))
        self.reported = np.array(lp, dtype=float)
        return self._give(lp, "lp")

    def predict_proba(self, Xt):
        parties._event("predict_proba", self)
        self.asked = True
        with np.errstate(all="ignore"):
            p = np.exp(self.raw(len(Xt)).astype(float))
            if self.spec["how"] == "neg_proba":
                p[-1, 0] = -0.25
            p = self._give(p, "p")
            q = np.asarray(p)
            self.reported = np.log(q.astype(np.float32 if q.dtype == np.float32 else float)).astype(float)
        return p

    # -- regression -------------------------------------------------------
    def predict(self, Xt, return_std=False):
        parties._event("predict", self)
        self.asked = True
        n, rs, how = len(Xt), self._rs(), self.spec["how"]
        mu, std = rs.randn(n), rs.gamma(1.0, size=n) + 0.05
        r = rs.randint(n)
        if how == "huge":
            mu, std = mu * 1e6, std * 1e4
        elif how == "tiny_std":
            std = std * 1e-6
        elif how == "neg_std" or how == "bad_neg_std":
            std[r] = -std[r]
        elif how == "int":
            mu, std = np.rint(mu * 5).astype(int), np.rint(std * 5).astype(int) + 1
        elif how == "nan_mu":
            mu[r] = np.nan
        elif how == "nan_last":
            mu[-1], std[-1] = np.nan, np.nan
        elif how == "nan_std":
            std[r] = np.nan
        elif how == "inf_mu":
            mu[r] = np.inf
        elif how == "neginf_mu":
            mu[r] = -np.inf
        elif how == "inf_std":
            std[r] = np.inf
        elif how == "zero_std":
            std[r] = 0.0
        elif how == "short_rows":
            mu, std = mu[:-1], std[:-1]
        elif how == "long_rows":
            mu, std = np.r_[mu, mu[:1]], np.r_[std, std[:1]]
        elif how == "column":
            mu, std = mu[:, None], std[:, None]
        elif how == "one_row":
            mu, std = mu[None, :], std[None, :]
        elif how == "scalar":
            mu, std = mu[:1], std[:1]
        elif how == "std_short":
            std = std[:-1]
        elif how == "std_column":
            std = std[:, None]
        elif how == "mu_one":
            mu = mu[:1]
        elif how == "mu_column":
            mu = mu[:, None]
        elif how == "std_one":
            std = std[:1]
        elif how == "mu_scalar":
            mu = np.array(mu[0])
        if how == "f4":
            mu, std = mu.astype(np.float32), std.astype(np.float32)
        self.reported = (np.array(mu, dtype=float), np.array(std, dtype=float))
        return self._give(mu, "mu"), self._give(std, "std")


class World:
    """What the misbehaving estimators share."""

    def __init__(self):
        self.later, self.common = [], {}

    def share(self, arr, tag):
        key = (tag, arr.shape, arr.dtype.str)
        if key in self.common:
            self.common[key][...] = arr
        else:
            self.common[key] = arr
        return self.common[key]

    def moved_on(self, who):
        """Another method is being fitted: what was handed out before is overwritten."""
        for owner, arr in self.later:
            if owner is not who:
                arr[...] = -4 if arr.dtype.kind == "i" else -4.75
                for j, (buf, was) in enumerate(owner.buffers):
                    if buf is arr:
                        owner.buffers[j] = (buf, np.array(buf, copy=True))
        self.later = []


def gen_call(rng):
    task = rng.choice(["clf", "clf", "reg"])
    k = rng.choice([1, 2, 2, 3, 4] * 3 + [12])
    n = rng.choice([1, 2, 3, 5])
    floor = hist.gen_floor(rng, task)
    methods = []
    bad_at = rng.randrange(4) if rng.random() < 0.45 else None
    for j in range(rng.choice([1, 2, 3, 4])):
        proba = rng.choice([None, None, "raises", "bare"]) if task == "clf" else None
        if j == bad_at:
            how = rng.choice(BAD_CLF if task == "clf" else BAD_REG)
        else:
            how = rng.choice(GOOD_CLF if task == "clf" else GOOD_REG)
        if how == "neg_proba":
            proba = proba or "raises"
        if proba and how in ("deep", "tiny", "huge_offset", "int"):
            how = "offset"
        methods.append({"name": "%s%d" % (rng.choice(["m", "A", "z"]), j), "how": how, "proba": proba, "s": rng.randrange(1000)})
    return {"task": task, "n_labels": k, "n": n, "floor": floor, "methods": methods, "dseed": rng.randrange(5),
            "ref": rng.randrange(4)}


def generate(rng, i, tier):
    return {"calls": [gen_call(rng) for _ in range(rng.choice([1, 1, 2, 3]))]}


def is_bad(call, m):
    """Whether the report is no distribution of the right shape, after the floor."""
    how, n, k, fl = m["how"], call["n"], call["n_labels"], call["floor"]
    if call["task"] == "clf":
        if how not in BAD_CLF:
            return False
        if how == "impossible_row":
            return fl == "-inf"
        if how == "one_row":
            return n != 1
        if how == "column":
            return k != 1
        if how == "transposed":
            return n != k
        if how == "narrow":
            return True
        return True
    if how == "neg_std":
        return fl <= 0
    if how in ("zero_std", "bad_neg_std"):
        return fl <= 0
    if how in ("scalar", "mu_one", "std_one"):
        return n != 1
    return how in BAD_REG


def data(call):
    rs = parties._rs(parties.digest("c04", {"s": call["dseed"]}))
    X, Xt = rs.randn(4, 2), rs.randn(call["n"], 2)
    if call["task"] == "clf":
        y = rs.randint(call["n_labels"], size=4)
        yt = rs.randint(call["n_labels"], size=call["n"])
    else:
        y, yt = rs.randn(4), rs.randn(call["n"])
    for a in (X, Xt, y, yt):
        a.flags.writeable = False
    return X, y, Xt, yt


def predict(lib, call, objs, d):
    X, y, Xt, _ = d
    methods = {m["name"]: o for m, o in zip(call["methods"], objs)}
    if call["task"] == "clf":
        return lib.classification.get_pred_log_prob(X, y, Xt, call["n_labels"], methods, min_log_prob=hist.floor_of(call))
    return lib.regression.get_gauss_pred(X, y, Xt, methods, min_std=call["floor"])


def execute(sc, run):
    proc = seams.Proc("main", None, {}, entropy=1)
    refused_before = False
    with seams.use(proc):
        lib = loader.fresh()
        for ci, call in enumerate(sc["calls"]):
            world = World()
            objs = [Byz(m, call["task"], call["n_labels"], world) for m in call["methods"]]
            bad = [m for m in call["methods"] if is_bad(call, m)]
            d = data(call)
            pin = ambient.fp(list(d))
            where = "call %d (%s, n=%d, labels=%d, floor=%s)" % (ci, call["task"], call["n"], call["n_labels"], call["floor"])
            tbl, err = None, None
            try:
                with np.errstate(all="ignore"):
                    tbl = predict(lib, call, objs, d)
            except Exception as e:
                err = e
            world.moved_on(None)
            for o in objs:
                if getattr(o, "asked", False):
                    if o.spec["how"] != "plain":
                        run.nontrivial = True
                        run.hit("fault/" + o.spec["how"])
                    for buf, was in o.buffers:
                        shared = o.spec["how"] == "shared_buffer"
                        if not shared and ambient.fp(np.asarray(buf)) != ambient.fp(was):
                            raise core.Violation("report-modified", "%s: the array that %r reported was overwritten" % (
                                where, o.spec))
            if ambient.fp(list(d)) != pin:
                raise core.Violation("input-modified", "%s: the data were modified" % where)
            run.log(ci, call["task"], [m["how"] for m in call["methods"]], type(err).__name__)
            if bad:
                if err is None:
                    refuse(lib, call, tbl, d, bad, where, run)
                run.hit("probe/refused")
                bench(lib, call, d, bad, where, run)
                refused_before = True
                continue
            if err is not None:
                raise core.Violation("spurious-refusal", "%s: %r for %s" % (where, err, [m["how"] for m in call["methods"]]))
            if refused_before:
                run.hit("probe/call_after_refusal")
            check(lib, call, tbl, objs, d, where, run)
    run.simtime = proc.elapsed()


def losses_of(lib, call):
    if call["task"] == "clf":
        return {"NLL": lib.classification.log_loss, "Brier": lib.classification.brier_loss,
                "sphere": lib.classification.spherical_loss, "zero_one": lib.classification.hard_loss}
    return {"NLL": lib.regression.log_loss, "MSE": lib.regression.square_loss, "MAE": lib.regression.abs_loss}


def refuse(lib, call, tbl, d, bad, where, run):
    """The prediction table came out; no score may."""
    mod = lib.classification if call["task"] == "clf" else lib.regression
    for name, f in losses_of(lib, call).items():
        try:
            with np.errstate(all="ignore"):
                lt = mod.loss_table(tbl, d[3], {name: f})
        except Exception:
            continue
        raise core.Violation("bad-report-scored", "%s: %s of method %r, whose report is %s: %s" % (
            where, name, bad[0]["name"], bad[0]["how"], lt[(name, bad[0]["name"])].values))
    if call["task"] == "clf" and call["n_labels"] == 2:
        for cname, cf in (("AUC", lib.perf_curves.roc_curve), ("AP", lib.perf_curves.recall_precision_curve)):
            try:
                with np.errstate(all="ignore"):
                    ct, _ = lib.classification.curve_summary_table(tbl, d[3], {cname: cf}, bad[0]["name"], n_boot=2)
            except Exception:
                continue
            raise core.Violation("bad-report-scored", "%s: %s of method %r, whose report is %s: %s" % (
                where, cname, bad[0]["name"], bad[0]["how"], ct.values))


def bench(lib, call, d, bad, where, run):
    """The one-call benchmark must refuse too."""
    world = World()
    objs = [Byz(m, call["task"], call["n_labels"], world) for m in call["methods"]]
    methods = {m["name"]: o for m, o in zip(call["methods"], objs)}
    ref = call["methods"][call["ref"] % len(call["methods"])]["name"]
    X, y, Xt, yt = d
    try:
        with np.errstate(all="ignore"):
            if call["task"] == "clf":
                if call["n_labels"] != 2:
                    return
                t, _ = lib.classification.just_benchmark(X, y, Xt, yt, 2, methods, {"zero_one": lib.classification.hard_loss},
                                                         {"AUC": lib.perf_curves.roc_curve}, ref,
                                                         min_pred_log_prob=hist.floor_of(call))
            else:
                t = lib.regression.just_benchmark(X, y, Xt, yt, methods, {"MAE": lib.regression.abs_loss}, ref,
                                                  min_std=call["floor"])
    except Exception:
        run.hit("probe/benchmark_refused")
        return
    raise core.Violation("bad-report-scored", "%s: the benchmark returns %s for %r, whose report is %s" % (
        where, t.loc[bad[0]["name"]].values, bad[0]["name"], bad[0]["how"]))


def check(lib, call, tbl, objs, d, where, run):
    op = {"task": call["task"], "n_labels": call["n_labels"], "methods": call["methods"]}
    want, tol = {}, {}
    for m, o in zip(call["methods"], objs):
        f4 = m["how"] == "f4"
        tol[m["name"]] = 3e-5 if f4 else 1e-9 if m["how"] != "huge_offset" else 1e-8
        if call["task"] == "clf":
            want[m["name"]] = refmodel.log_table(o.reported, hist.floor_of(call))
            if m["how"] == "impossible_row":
                run.hit("probe/uniform_from_floor")
        else:
            mu, std = o.reported
            want[m["name"]] = np.stack([mu, np.maximum(std, call["floor"])], axis=1)
    hist.check_table(tbl, op, where, want={k: _snap(tbl, k, v, tol[k]) for k, v in want.items()})
    mod = lib.classification if call["task"] == "clf" else lib.regression
    yt = d[3]
    ll = losses_of(lib, call)
    with np.errstate(all="ignore"):
        try:
            lt = mod.loss_table(tbl, yt, ll)
            if call["task"] == "clf":  # a table the caller scaled scores the same
                lt2 = mod.loss_table(tbl + 2.5, yt, ll)
        except Exception as e:
            raise core.Violation("spurious-refusal", "%s: loss_table: %r" % (where, e))
    for m in call["methods"]:
        blk = tbl[m["name"]].values
        for name in ll:
            if call["task"] == "clf":
                exp = refmodel.clf_loss(name, yt, blk)
                if name == "NLL":
                    s = np.exp(blk).sum(axis=1)
                    if not np.allclose(s, 1.0, atol=1e-4 if m["how"] == "f4" else 1e-8):
                        raise core.Violation("not-normalised", "%s: rows of %r sum to %s" % (where, m, s))
                for t in (lt, lt2):
                    if not refmodel.losses_match(t[(name, m["name"])].values, exp, 1e-4 if m["how"] == "f4" else 1e-7,
                                                 1e-4 if m["how"] == "f4" else 1e-7):
                        raise core.Violation("wrong-score", "%s: %s of %r (%s): %s, expected %s" % (
                            where, name, m["name"], m["how"], t[(name, m["name"])].values, exp))
            else:
                exp = refmodel.reg_loss(name, yt, blk[:, 0], blk[:, 1])
                if not refmodel.losses_match(lt[(name, m["name"])].values, exp, *((1e-5, 1e-5) if m["how"] == "f4" else ())):
                    raise core.Violation("wrong-score", "%s: %s of %r (%s): %s, expected %s" % (
                        where, name, m["name"], m["how"], lt[(name, m["name"])].values, exp))
    run.hit("probe/scored")


def _snap(tbl, name, want, tol):
    """The model's block, with the table's own values where they agree within the type's precision."""
    try:
        got = tbl[name].values.astype(float)
        if got.shape == want.shape and refmodel.close(got, want, tol, tol):
            return got
    except Exception:
        pass
    return want
