"""Calls into every public part of the library, for sessions of mixed calls (C05, C06, C07).

An op is a small JSON object; build() makes fresh inputs from it (a function of
the op alone) and call() makes the call.  RANDOM ops draw from numpy's global
stream; the others may not.
"""
import decimal

import numpy as np
import pandas as pd

from vsim import hist, parties, seams

NAMES = ["zeta", "alpha", "m1", "m2", "Beta", "gp", "svc", "iid", "m10"]
METRICS = ["NLL", "Brier", "sphere", "zero_one", "a_metric", "Zed"]


def rs_of(op):
    return parties._rs(parties.digest("op", {"k": op["k"], "s": op["s"]}))


# -- inputs ---------------------------------------------------------------------


def size(o, rs, lo, hi):
    """A number of rows: mostly few, now and then many."""
    n = int(rs.randint(lo, hi))
    return int(rs.choice([40, 300, 700, 2500])) if o["s"] % 31 == 5 else n


def logp(rs, n, k, zeros=False, ties=False):
    p = rs.gamma(0.8, size=(n, k)) + 1e-5
    if ties:
        p = np.ceil(p * 2)
    if zeros and k > 1:
        z = rs.rand(n, k) < 0.15
        z[np.arange(n), rs.randint(k, size=n)] = False
        p[z] = 0
    with np.errstate(divide="ignore"):
        return np.log(p / p.sum(axis=1, keepdims=True))


def pred_table(rs, n, k, names, zeros=False, ties=False, index=None):
    cols = pd.MultiIndex.from_product([names, range(k)], names=["method", "label"])
    data = np.concatenate([logp(rs, n, k, zeros, ties) for _ in names], axis=1)
    return pd.DataFrame(data, index=range(n) if index is None else index, columns=cols)


def gauss_table(rs, n, names, index=None):
    cols = pd.MultiIndex.from_product([names, ("mu", "std")], names=["method", "moment"])
    data = rs.randn(n, 2 * len(names))
    data[:, 1::2] = np.abs(data[:, 1::2]) + 0.1
    return pd.DataFrame(data, index=range(n) if index is None else index, columns=cols)


def selected(tbl):
    """The same table, as a selection from a wider one: its column levels still list what was left out."""
    wide = pd.concat([tbl, tbl.iloc[:, :1].rename(columns=lambda c: "left out" if isinstance(c, str) else c)], axis=1)
    return wide.iloc[:, :tbl.shape[1]]


def loss_frame(rs, n, names, metrics, index=None):
    cols = pd.MultiIndex.from_product([metrics, names], names=["metric", "method"])
    return pd.DataFrame(rs.rand(n, len(cols)).round(rs.choice([1, 3, 12])), columns=cols,
                        index=range(n) if index is None else index)


def perf_table(rs, names, metrics, wild=False):
    cols = pd.MultiIndex.from_product([metrics, ("mean", "error", "p")], names=["metric", "stat"])
    tbl = pd.DataFrame(index=pd.Index(names, name="method"), columns=cols, dtype=float)
    for m in metrics:
        sc = 10.0 ** rs.randint(-3, 4)
        for n in names:
            tbl.loc[n, (m, "mean")] = rs.randn() * sc
            tbl.loc[n, (m, "error")] = abs(rs.randn()) * sc * 10.0 ** rs.randint(-3, 1)
            tbl.loc[n, (m, "p")] = rs.choice([rs.rand(), rs.rand() * 1e-4, 0.0, 1.0, np.nan])
            if wild and rs.rand() < 0.2:
                tbl.loc[n, (m, "error")] = rs.choice([0.0, np.inf, np.nan])
    return tbl


def index_of(rs, n):
    k = rs.randint(6)
    if k == 0:
        return None
    if k == 4:
        return list(rs.permutation(n))
    if k == 5:
        return list(rs.randint(max(1, n // 2), size=n))
    if k == 1:
        return list(rs.permutation(n) * 3 + 7)
    if k == 2:
        return ["r%d" % i for i in rs.permutation(n)]
    return pd.date_range("2017-01-01", periods=n)


def split_frame(rs, n):
    df = pd.DataFrame({"a": rs.randint(6, size=n), "b": rs.randn(n).round(2), "c": rs.permutation(n),
                       "s": rs.choice(["u", "v", "w", "x"], size=n)})
    ix = index_of(rs, n)
    if ix is not None:
        df.index = ix
    return df


class Metric:
    """A caller-supplied metric: an event, then the library's own loss."""

    def __init__(self, name, f):
        self.name, self.f = name, f

    def ident(self):
        return "metric:%s" % self.name

    def __call__(self, *a, **kw):
        parties._event("metric", self)
        out = self.f(*a, **kw)
        parties._event("metric_end", self)
        return out


def clf_losses(lib, names):
    pool = {"NLL": lib.classification.log_loss, "Brier": lib.classification.brier_loss,
            "sphere": lib.classification.spherical_loss, "zero_one": lib.classification.hard_loss}
    return {n: Metric(n, pool[n]) for n in names}


def pinball(y, mu, std):
    """A user's own loss: of a quantile, so too low and too high count differently."""
    d = y - (mu + std)
    return np.where(d >= 0, 0.75 * d, -0.25 * d)


def reg_losses(lib, names):
    pool = {"NLL": lib.regression.log_loss, "MSE": lib.regression.square_loss, "MAE": lib.regression.abs_loss, "pinball": pinball}
    return {n: Metric(n, pool[n]) for n in names}


def curves(lib, names):
    pool = {"AUC": lib.perf_curves.roc_curve, "AP": lib.perf_curves.recall_precision_curve,
            "AUPRG": lib.perf_curves.prg_curve}
    return {n: Metric(n, pool[n]) for n in names}


def pick(rs, pool, k):
    return [pool[i] for i in rs.permutation(len(pool))[:k]]


LIMITS = {"NLL": (-np.inf, np.inf), "Brier": (0.0, 4.0), "zero_one": (0.0, 1.0), "sphere": (-1.0, 4.0)}

# -- the operations ---------------------------------------------------------------

OPS = {}


def op(name, rand=False, callbacks=False, weight=1):
    def deco(cls):
        OPS[name] = cls
        cls.rand, cls.callbacks, cls.weight = rand, callbacks, weight
        return cls
    return deco


class _Hist:
    task = "clf"

    @classmethod
    def build(cls, o):
        h = o["h"]
        X, y, Xt = hist.build_data(h)
        return dict(X=X, y=y, Xt=Xt, methods={m["name"]: parties.make(m) for m in h["methods"]})


def spare(kw, **defaults):
    """Keyword arguments, those at their documented default left out."""
    return {k: v for k, v in kw.items() if k not in defaults or type(v) is not type(defaults[k]) or v != defaults[k]}


SUMMARY_DEFAULTS = dict(pairwise_CI=False, confidence=0.95, method_EB="t", limits={}, n_boot=1000)
MEAN_DEFAULTS = dict(confidence=0.95, min_EB=0.0, lower=-float("inf"), upper=float("inf"), method="t")


@op("clf_pred", callbacks=True, weight=3)
class ClfPred(_Hist):
    @staticmethod
    def call(lib, o, a):
        kw = {} if o.get("ckpt") is None else {"checkpointdir": o["ckpt"]}
        if o.get("verbose"):
            kw["verbose"] = True
        return lib.classification.get_pred_log_prob(a["X"], a["y"], a["Xt"], o["h"]["n_labels"], a["methods"],
                                                    min_log_prob=hist.floor_of(o["h"]), **kw)


@op("reg_pred", callbacks=True, weight=3)
class RegPred(_Hist):
    @staticmethod
    def call(lib, o, a):
        kw = {} if o.get("ckpt") is None else {"checkpointdir": o["ckpt"]}
        if o.get("verbose"):
            kw["verbose"] = True
        return lib.regression.get_gauss_pred(a["X"], a["y"], a["Xt"], a["methods"], min_std=o["h"]["floor"], **kw)


@op("clf_bench", rand=True, callbacks=True, weight=2)
class ClfBench(_Hist):
    @classmethod
    def build(cls, o):
        a = _Hist.build.__func__(cls, o)
        rs = rs_of(o)
        a["yt"] = rs.randint(2, size=len(a["Xt"])).astype(a["y"].dtype)
        a["limits"] = {k: LIMITS[k] for k in ("Brier", "zero_one")}
        return a

    @staticmethod
    def call(lib, o, a):
        rs = rs_of(o)
        cl = lib.classification
        return cl.just_benchmark(a["X"], a["y"], a["Xt"], a["yt"], 2, a["methods"],
                                 clf_losses(lib, pick(rs, ["NLL", "Brier", "sphere", "zero_one"], 2)),
                                 curves(lib, pick(rs, ["AUC", "AP"], 1)), o["h"]["methods"][0]["name"],
                                 min_pred_log_prob=max(-30.0, hist.floor_of(o["h"])), pairwise_CI=bool(o["s"] % 2),
                                 method_EB=["t", "boot", "bernstein"][0 if o["s"] % 3 == 2 else o["s"] % 3],
                                 limits=a["limits"])


@op("reg_bench", callbacks=True, weight=2)
class RegBench(_Hist):
    @classmethod
    def build(cls, o):
        a = _Hist.build.__func__(cls, o)
        a["yt"] = rs_of(o).randn(len(a["Xt"]))
        a["y"] = a["y"].astype(float)
        return a

    @staticmethod
    def call(lib, o, a):
        rs = rs_of(o)
        return lib.regression.just_benchmark(a["X"], a["y"], a["Xt"], a["yt"], a["methods"],
                                             reg_losses(lib, pick(rs, ["NLL", "MSE", "MAE"], 2)),
                                             o["h"]["methods"][0]["name"], min_std=max(0.1, o["h"]["floor"]),
                                             pairwise_CI=bool(o["s"] % 2))


@op("clf_loss_table", callbacks=True)
class ClfLossTable:
    @staticmethod
    def build(o):
        rs = rs_of(o)
        n, k = size(o, rs, 1, 7), int(rs.choice([1, 2, 2, 3, 4, 4, 12]))
        tbl = pred_table(rs, n, k, pick(rs, NAMES, rs.randint(1, 4)), o["s"] % 3 == 0, o["s"] % 2 == 0, index_of(rs, n))
        y = rs.randint(k, size=n)
        if k == 2 and o["s"] % 4 == 0:
            y = y.astype(bool)
        return dict(tbl=tbl + (0.5 if o["s"] % 5 == 0 else 0.0), y=y, names=pick(rs, ["NLL", "Brier", "sphere", "zero_one"], 3))

    @staticmethod
    def call(lib, o, a):
        return lib.classification.loss_table(a["tbl"], a["y"], clf_losses(lib, a["names"]),
                                             assume_normalized=bool(o["s"] % 5 and o["s"] % 7 == 0))


@op("reg_loss_table", callbacks=True)
class RegLossTable:
    @staticmethod
    def build(o):
        rs = rs_of(o)
        n = size(o, rs, 1, 7)
        return dict(tbl=gauss_table(rs, n, pick(rs, NAMES, rs.randint(1, 4)), index_of(rs, n)), y=rs.randn(n),
                    names=pick(rs, ["NLL", "MSE", "MAE"], 2))

    @staticmethod
    def call(lib, o, a):
        return lib.regression.loss_table(a["tbl"], a["y"], reg_losses(lib, a["names"]))


@op("loss_summary", weight=2)
class LossSummary:
    method = "t"

    @staticmethod
    def build(o):
        rs = rs_of(o)
        n = size(o, rs, 1, 9)
        names = pick(rs, NAMES, rs.randint(1, 4))
        metrics = pick(rs, METRICS, rs.randint(1, 4))
        return dict(tbl=loss_frame(rs, n, names, metrics, index_of(rs, n)), ref=names[0],
                    limits={m: (0.0, float(rs.choice([1.0, 2.0, np.inf]))) for m in metrics if rs.rand() < 0.7})

    @classmethod
    def call(cls, lib, o, a):
        m = cls.method if cls.method == "boot" else ("t", "bernstein")[o["s"] % 2]
        return lib.core.loss_summary_table(a["tbl"], a["ref"], pairwise_CI=bool(o["s"] % 3), confidence=(0.95, 0.8, 0.99)[o["s"] % 3],
                                           method_EB=m, limits=a["limits"])


@op("loss_summary_boot", rand=True)
class LossSummaryBoot(LossSummary):
    method = "boot"


def _binary(o, n=None):
    rs = rs_of(o)
    n = n or size(o, rs, 2, 9)
    names = pick(rs, NAMES, rs.randint(1, 4))
    tbl = pred_table(rs, n, 2, names, False, o["s"] % 2 == 0, index_of(rs, n))
    y = rs.randint(2, size=n)
    if o["s"] % 3 == 0:
        y = y.astype(bool)
    return rs, tbl, y, names


@op("curve_summary", rand=True, callbacks=True)
class CurveSummary:
    @staticmethod
    def build(o):
        rs, tbl, y, names = _binary(o)
        return dict(tbl=tbl, y=y, ref=names[0], names=pick(rs, ["AUC", "AP", "AUPRG"], 2),
                    grid=None if o["s"] % 2 else np.linspace(0, 1, 5))

    @staticmethod
    def call(lib, o, a):
        return lib.classification.curve_summary_table(a["tbl"], a["y"], curves(lib, a["names"]), a["ref"], x_grid=a["grid"],
                                                      n_boot=7, pairwise_CI=bool(o["s"] % 3))


@op("summary_table", rand=True, callbacks=True)
class SummaryTable:
    @staticmethod
    def build(o):
        rs, tbl, y, names = _binary(o)
        return dict(tbl=tbl, y=y, ref=names[-1], names=pick(rs, ["AUC", "AP"], 2),
                    losses=pick(rs, ["NLL", "Brier", "zero_one"], 2), limits={"zero_one": (0.0, 1.0)})

    @staticmethod
    def call(lib, o, a):
        return lib.classification.summary_table(a["tbl"], a["y"], clf_losses(lib, a["losses"]), curves(lib, a["names"]),
                                                a["ref"], n_boot=6, limits=a["limits"],
                                                pairwise_CI=bool(o["s"] % 2))


@op("curve_boot", rand=True)
class CurveBoot:
    @staticmethod
    def build(o):
        rs = rs_of(o)
        n = size(o, rs, 1, 9)
        return dict(y=rs.randint(2, size=n), lp=logp(rs, n, 2, ties=bool(o["s"] % 2)),
                    ref=0.5 if o["s"] % 3 == 0 else logp(rs, n, 2), grid=np.linspace(0, 1, 4))

    @staticmethod
    def call(lib, o, a):
        f = [lib.perf_curves.roc_curve, lib.perf_curves.recall_precision_curve][o["s"] % 2]
        return lib.classification.curve_boot(a["y"], a["lp"], a["ref"], f, x_grid=a["grid"], n_boot=6)


@op("curve_fn")
class CurveFn:
    @staticmethod
    def build(o):
        rs = rs_of(o)
        n = size(o, rs, 1, 9)
        return dict(y=rs.rand(n) < rs.choice([0.5, 0.5, 0.0, 1.0]), s=rs.randn(n).round(int(rs.choice([0, 6]))),
                    w=None if o["s"] % 2 else rs.rand(3, n) + 0.1)

    @staticmethod
    def call(lib, o, a):
        f = [lib.perf_curves.roc_curve, lib.perf_curves.recall_precision_curve, lib.perf_curves.prg_curve][o["s"] % 3]
        return f(a["y"], a["s"], a["w"])


@op("stats", weight=2)
class Stats:
    @staticmethod
    def build(o):
        rs = rs_of(o)
        return dict(x=rs.randn(size(o, rs, 1, 9)).round(int(rs.choice([0, 3, 12]))).clip(-4, 4))

    @staticmethod
    def call(lib, o, a):
        c = lib.core
        return (c.get_mean_EB_test(a["x"], 0.9, lower=-5.0, upper=5.0, method=("t", "bernstein")[o["s"] % 2]),
                c.get_mean_and_EB(a["x"], 0.9, 0.01, lower=-5.0, upper=5.0, method=("t", "bernstein")[o["s"] % 2]),
                c.get_test(a["x"], -5.0, 5.0, method=("t", "bernstein")[o["s"] % 2]), c.t_EB(a["x"]), c.t_test(a["x"]))


@op("stats_boot", rand=True)
class StatsBoot:
    build = Stats.build

    @staticmethod
    def call(lib, o, a):
        c = lib.core
        return c.get_mean_EB_test(a["x"], 0.9, method="boot"), c.boot_EB(a["x"], n_boot=20), c.boot_test(a["x"], n_boot=20)


@op("boot_weights", rand=True)
class BootWeights:
    @staticmethod
    def build(o):
        return {}

    @staticmethod
    def call(lib, o, a):
        return lib.boot_util.boot_weights(1500 if o["s"] % 31 == 5 else 1 + o["s"] % 6, 1 + o["s"] % 4, epsilon=(0, 1e-10, 0.5)[o["s"] % 3])


@op("boot_util")
class BootUtil:
    @staticmethod
    def build(o):
        rs = rs_of(o)
        b = rs.randn(size(o, rs, 1, 30)).round(1)
        return dict(b=b, r=rs.randn(len(b)).round(1), b2=rs.randn(7, 3))

    @staticmethod
    def call(lib, o, a):
        bu = lib.boot_util
        return (bu.percentile(a["b"], 0.8), bu.percentile(a["b2"]), bu.basic(a["b2"], a["b2"][0], 0.5),
                bu.error_bar(a["b"], float(a["b"][0]), 0.8), bu.significance(a["b"], a["r"]), bu.significance(a["b"], 0.0))


def _splits(o, kinds):
    rs = rs_of(o)
    cols = pick(rs, ["a", "b", "c", "s", None], rs.randint(1, 4))
    out = {}
    for c in cols:
        kind = kinds[rs.randint(len(kinds))]
        if c in ("s", None) and kind != "random":
            c = "b"
        out[c] = (kind, float(rs.choice([0.0, 0.25, 0.5, 0.8, 0.7, 1.0])))
    return out


@op("split", rand=True, weight=2)
class Split:
    kinds = ["random", "random", "ordered", "linear"]

    @classmethod
    def build(cls, o):
        rs = rs_of(o)
        return dict(df=split_frame(rs, size(o, rs, 2, 12)), splits=_splits(o, cls.kinds))

    @staticmethod
    def call(lib, o, a):
        return lib.data_splitter.split_df(a["df"], a["splits"])


@op("split_fixed")
class SplitFixed(Split):
    kinds = ["ordered", "linear"]

    @classmethod
    def build(cls, o):
        a = Split.build.__func__(cls, o)
        a["splits"] = {k: v for k, v in a["splits"].items() if v[0] != "random"} or {"b": ("ordered", 0.5)}
        for k in list(a["splits"]):
            if k in ("s", None):
                a["splits"]["b"] = a["splits"].pop(k)
        return a


@op("split_default", rand=True)
class SplitDefault:
    @staticmethod
    def build(o):
        rs = rs_of(o)
        return dict(df=split_frame(rs, size(o, rs, 2, 12)))

    @staticmethod
    def call(lib, o, a):
        return lib.data_splitter.split_df(a["df"])


@op("lag")
class Lag:
    @staticmethod
    def build(o):
        rs = rs_of(o)
        return dict(df=pd.DataFrame(rs.randn(5, 3), columns=list("abc")), f=None if o["s"] % 2 else ["a", "c"])

    @staticmethod
    def call(lib, o, a):
        return lib.data_splitter.build_lag_df(a["df"], 1 + o["s"] % 3, stride=1 + o["s"] % 2, features=a["f"])


def _fmt_args(o):
    rs = rs_of(o)
    names = pick(rs, NAMES, rs.randint(1, 5))
    metrics = pick(rs, METRICS, rs.randint(1, 4))
    return dict(tbl=perf_table(rs, names, metrics, wild=bool(o["s"] % 2)),
                unit={m: u for m, u in zip(metrics, ["s", "m", "bits"]) if rs.rand() < 0.5},
                cmax={m: int(rs.randint(2, 5)) for m in metrics if rs.rand() < 0.3},
                cmin={m: int(rs.randint(2, 5)) for m in metrics if rs.rand() < 0.3},
                eb={m: int(rs.randint(-1, 3)) for m in metrics if rs.rand() < 0.3},
                nf={"nan": "--", "inf": "oo"} if rs.rand() < 0.5 else {})


@op("format", weight=2)
class Format:
    build = staticmethod(_fmt_args)

    @staticmethod
    def call(lib, o, a):
        return lib.sciprint.just_format_it(a["tbl"], a["unit"], shift_mod=(1, 3, 3)[o["s"] % 3], crap_limit_max=a["cmax"],
                                           crap_limit_min=a["cmin"], EB_limit=a["eb"], non_finite_fmt=a["nf"],
                                           use_prefix=bool(o["s"] % 5))


@op("format_steps", weight=2)
class FormatSteps:
    build = staticmethod(_fmt_args)

    @staticmethod
    def call(lib, o, a):
        sp = lib.sciprint
        dec = sp.decimalize(a["tbl"], err_digits=1 + o["s"] % 3, EB_limit=a["eb"])
        tbl, shifts = sp.format_table(dec, shift_mod=1 + o["s"] % 3, crap_limit_max=a["cmax"], pad=bool(o["s"] % 2),
                                      crap_limit_min=a["cmin"], non_finite_fmt=a["nf"])
        shifts = {k: int(v) for k, v in shifts.items()}
        return dec, tbl, shifts, sp.adjust_headers(tbl.columns, shifts, a["unit"], use_tex=bool(o["s"] % 2))


@op("format_dec")
class FormatDec:
    """format_table on a Decimal table the caller owns."""

    @staticmethod
    def build(o):
        a = _fmt_args(o)
        t = a["tbl"]
        rs = rs_of(o)
        e = int(rs.randint(0, 4))
        dec = pd.DataFrame(index=t.index, columns=t.columns, dtype=object)
        for c in t.columns:
            for r in t.index:
                v = t.loc[r, c]
                q = decimal.Decimal(1).scaleb(-(4 if c[1] == "p" else e))
                d = decimal.Decimal(float(v) if np.isfinite(v) else 1.0).quantize(q, rounding=decimal.ROUND_CEILING)
                dec.loc[r, c] = abs(d) if c[1] == "error" else d
        a["dec"] = dec
        return a

    @staticmethod
    def call(lib, o, a):
        tbl, shifts = lib.sciprint.format_table(a["dec"], shift_mod=1 + o["s"] % 3)
        return tbl, {k: int(v) for k, v in shifts.items()}, lib.sciprint.table_to_string(tbl, shifts, a["unit"])


@op("decimals")
class Decimals:
    @staticmethod
    def build(o):
        rs = rs_of(o)
        return dict(x=[float(v) for v in rs.randn(4) * 10.0 ** rs.randint(-4, 5)], mu=[decimal.Decimal(int(v)).scaleb(-2) for v in rs.randint(-9999, 9999, size=3)],
                    eb=[decimal.Decimal(int(v)).scaleb(-2) for v in rs.randint(0, 99, size=3)])

    @staticmethod
    def call(lib, o, a):
        sp = lib.sciprint
        return ([sp.create_decimal(v, 1 + o["s"] % 5) for v in a["x"]], [sp.print_estimate(m, e, o["s"] % 3) for m, e in zip(a["mu"], a["eb"])],
                int(sp.find_shift(a["mu"], a["eb"], 1 + o["s"] % 3)), sp.pad_num_str(["-55.5", "1.12(34)", "0"]),
                sp.print_pval(decimal.Decimal("0.0123")))


@op("utils", weight=2)
class Utils:
    @staticmethod
    def build(o):
        rs = rs_of(o)
        x = np.sort(rs.rand(6).round(1))
        x[0], x[-1] = 0.0, 1.0
        n = size(o, rs, 4, 5)
        return dict(lp=rs.randn(n, 3), y=rs.randint(3, size=n + 1), x=x, v=rs.rand(6), g=np.linspace(0, 1, 5),
                    xc=np.sort(rs.rand(2, 5), axis=1), yc=rs.rand(2, 5), mat=rs.rand(3, 2))

    @staticmethod
    def call(lib, o, a):
        u = lib.util
        return (u.normalize(a["lp"]), u.one_hot(a["y"], 3), tuple(np.array(q) for q in u.unique_take_last(a["x"], a["v"])), u.cummax_strict(a["x"]),
                u.interp1d(a["g"], a["x"][None], a["v"][None], ("linear", "previous")[o["s"] % 2]),
                u.area(a["xc"], a["yc"], ("linear", "previous")[o["s"] % 2]),
                lib.classification.hard_loss_decision(a["lp"], a["mat"]),
                lib.core.clip_EB(0.2, 0.5, 0.0, 1.0, 0.1), u.remove_chars("1,234.5", ",."))


@op("epsilon_noise", rand=True)
class EpsNoise:
    @staticmethod
    def build(o):
        rs = rs_of(o)
        return dict(x=rs.rand(size(o, rs, 5, 6)).round(1))

    @staticmethod
    def call(lib, o, a):
        return lib.util.epsilon_noise(a["x"])


@op("just_noise")
class JustNoise:
    @staticmethod
    def build(o):
        rs = rs_of(o)
        n = size(o, rs, 6, 7)
        return dict(X=rs.randn(n, 2), y=rs.randint(3, size=n), yr=rs.randn(n), Xt=rs.randn(n // 2, 2))

    @staticmethod
    def call(lib, o, a):
        c = lib.classification.JustNoise(3, pseudo_count=0.5)
        c.fit(a["X"], a["y"])
        r = lib.regression.JustNoise()
        r.fit(a["X"], a["yr"])
        return c.predict_log_proba(a["Xt"]), r.predict(a["Xt"], return_std=True)


def gen(rng, kinds=None, rand=None):
    pool = []
    for k, c in OPS.items():
        if (kinds is None or k in kinds) and (rand is None or c.rand == rand):
            pool += [k] * c.weight
    k = rng.choice(pool)
    o = {"k": k, "s": rng.randrange(10 ** 6)}
    if k in ("clf_pred", "reg_pred", "clf_bench", "reg_bench"):
        task = "clf" if k.startswith("clf") else "reg"
        h = hist.gen_op(rng, task)
        if h["data"]["ntr"] + h["data"]["nte"] > 50:
            h["data"].update(ntr=4, nte=3)
        if k == "clf_bench":
            h["n_labels"] = 2
            for m in h["methods"]:
                m["params"]["n_labels"] = 2
        if len(h["methods"]) > 3:
            h["methods"] = h["methods"][:3]
        h["dir"] = None
        o["h"] = h
        if rng.random() < 0.1:
            o["verbose"] = True
    return o


def build(o):
    return OPS[o["k"]].build(o)


def call(lib, o, a):
    return OPS[o["k"]].call(lib, o, a)


def is_random(o):
    return OPS[o["k"]].rand


def det_part(o, r):
    """The part of the result of a random op that no draw can change."""
    k = o["k"]
    if k in ("clf_bench", "summary_table", "curve_summary"):
        tbl, dump = r
        keep = [c for c in tbl.columns if c[1] == "mean"]
        extra = [c for c in tbl.columns if c[1] != "mean" and o["k"] != "curve_summary"
                 and c[0] not in ("AUC", "AP", "AUPRG") and not (k == "clf_bench" and o["s"] % 3 == 1)]
        return (tbl[keep + extra], list(tbl.columns), list(tbl.index),
                {key: dump[key][["xgrid", "ygrid"]] for key in dump})
    if k == "curve_boot":
        return r[0][0], r[1][["xgrid", "ygrid"]]
    if k == "loss_summary_boot":
        return r[[c for c in r.columns if c[1] == "mean"]], list(r.columns), list(r.index)
    if k == "stats_boot":
        return r[0][0]
    if k in ("split", "split_default"):
        return sorted(repr(i) for part in r for i in part.index), [list(part.columns) for part in r]
    if k == "boot_weights":
        return r.shape, r.dtype.str
    if k == "epsilon_noise":
        return r.shape
    return r
