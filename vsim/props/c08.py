"""C08: every split is a legal, grouped, correctly sized partition, on every draw."""
import datetime
import itertools
import math
from fractions import Fraction

import numpy as np
import pandas as pd

from vsim import ambient, chance, core, loader, seams

PID = "C08"
PLAN = {"quick": dict(runs=9000, wall=420, min=900, recheck=48),
        "thorough": dict(runs=200000, wall=3000, min=9000, recheck=300)}
SHRINK = ("ops", "splits", "cols", "flags")
RULE = ("A session of splits of seeded frames (also of a part of an earlier split, or after the caller wrote into one), under "
        "real and adversarial draws of the random stream; each result is compared with the set of all partitions the "
        "documentation allows. Non-trivial: a random column, two or more split columns, or a steered draw. Distinct by "
        "digest of frames, criteria and parts.")
REAL = ["mlpaper.data_splitter (working tree)", "pandas", "numpy"]
STUBS = ["numpy.random's global functions: recorded, and in part replaced by adversarial legal draws"]
ASSUMPTIONS = ["frac * n_cases within 1e-9 of an integer may round either way",
               "values within 1e-12 (relative to the range) of a linear pivot may fall on either side"]
MUST_HIT = ("probe/random_column", "probe/multi_column", "probe/index_split", "probe/duplicate_index", "probe/groups",
            "probe/assume_unique", "probe/assume_sorted", "probe/nested", "probe/rejected", "fault/steered_draw", "probe/large_frame", "probe/series",
            "probe/uniform", "probe/unused_rows", "probe/empty_train", "probe/integral_fraction", "probe/caller_writes")

COLS = ("onum", "ocat", "ocatn", "Int", "string", "period", "g3", "g5", "half", "uniq", "sorted", "float", "ftie", "str", "date", "big", "neg", "bool", "const", "near", "i1",
        "u1", "i2", "i4", "f4", "u8", "mixed", "cat", "tuple", "span")
NUMERIC = ("Int", "g3", "g5", "half", "uniq", "sorted", "float", "ftie", "neg", "const", "near", "i1", "u1", "i2", "i4")
UNORDERED = ("mixed", "cat", "tuple", "multi", "multidup")  # only random splits make sense
INDEXES = ("ocat", "range", "range", "perm", "str", "dup", "date", "desc", "zeros", "flt", "multi", "multidup")
FRACS = (0.0, 1.0, 0.5, 0.8, 0.25, 0.2, 0.6, 0.1, 0.9, 0.7, 1.0 / 3, 2.0 / 3, 0.01, 0.99, 1e-9, 0.75)


def column(kind, n, rs):
    if kind == "g3":
        return rs.randint(3, size=n)
    if kind == "g5":
        return rs.randint(-2, 3, size=n) * 10
    if kind == "half":
        return rs.permutation(n) // 2
    if kind == "uniq":
        return rs.permutation(n) * 2 - 3
    if kind == "sorted":
        return np.cumsum(rs.randint(1, 4, size=n))
    if kind == "float":
        return rs.randn(n) * 10.0 ** rs.randint(-3, 4)
    if kind == "ftie":
        return rs.randn(n).round(1)
    if kind == "str":
        return np.array(["u", "v", "ww", "x y", ""], dtype=object)[rs.randint(5, size=n)]
    if kind == "date":
        return np.array(["2017-01-01", "2017-01-03", "2018-06-05", "2016-02-29"], dtype="datetime64[ns]")[rs.randint(4, size=n)]
    if kind == "big":
        return rs.randint(4, size=n) + 2 ** 60
    if kind == "neg":
        return -rs.rand(n) * 5
    if kind == "bool":
        return rs.rand(n) < 0.5
    if kind == "const":
        return np.full(n, 7)
    if kind == "near":
        return 1.0 + rs.randint(3, size=n) * 2.0 ** -52
    if kind == "i1":
        return rs.choice([-128, -100, -7, 0, 5, 60, 127], size=n).astype(np.int8)
    if kind == "u1":
        return rs.choice([0, 3, 100, 200, 255], size=n).astype(np.uint8)
    if kind == "i2":
        return (rs.randint(-3, 4, size=n) * 10900).astype(np.int16)
    if kind == "i4":
        return (rs.randint(0, 6, size=n) + 2 ** rs.choice([24, 30]) - 3 * rs.randint(0, 2)).astype(np.int32)
    if kind == "f4":
        return rs.randn(n).round(1).astype(np.float32)
    if kind == "u8":
        return rs.randint(4, size=n).astype(np.uint64) + np.uint64(2 ** 63)
    if kind == "mixed":
        vals = np.empty(6, dtype=object)
        vals[:] = [1, "1", "home", 2.5, 3, "away"]
        return vals[rs.randint(6, size=n)]
    if kind == "cat":
        return pd.Categorical(np.array(["lo", "hi", "mid"])[rs.randint(3, size=n)], categories=["mid", "lo", "none", "hi"])
    if kind == "onum":  # numbers, whose text sorts otherwise
        return np.array([10, 9, 100, -2, -10, 2.5], dtype=object)[rs.randint(6, size=n)]
    if kind == "ocat":  # ordered, but not as the labels are
        return pd.Categorical(np.array(["lo", "hi", "mid"])[rs.randint(3, size=n)], categories=["none", "lo", "mid", "hi"], ordered=True)
    if kind == "ocatn":
        return pd.Categorical(rs.randint(5, size=n), categories=[3, 0, 4, 1, 2], ordered=True)
    if kind == "Int":
        return pd.array(rs.randint(-4, 5, size=n), dtype="Int64")
    if kind == "string":
        return pd.array(np.array(["u", "v", "ww", "x y"], dtype=object)[rs.randint(4, size=n)], dtype="string")
    if kind == "period":
        return pd.PeriodIndex(np.array(["2017-01", "2017-03", "2016-12"])[rs.randint(3, size=n)], freq="M")
    if kind == "tuple":
        vals = np.empty(4, dtype=object)
        vals[:] = [(0, 1), (1, 0), (0,), (1, 2)]
        return vals[rs.randint(4, size=n)]
    if kind == "span":
        return pd.to_timedelta(rs.randint(5, size=n), unit="h")
    raise KeyError(kind)


def index(kind, n, rs):
    if kind == "range":
        return pd.RangeIndex(n)
    if kind == "perm":
        return pd.Index(rs.permutation(n) * 3 + 7)
    if kind == "str":
        return pd.Index(["r%d" % i for i in rs.permutation(n)])
    if kind == "dup":
        return pd.Index(rs.randint(max(1, n // 2 + 1), size=n))
    if kind == "date":
        return pd.date_range("2017-01-01", periods=n)
    if kind == "desc":
        return pd.Index(np.arange(n)[::-1])
    if kind == "multi":
        k = rs.permutation(n)
        return pd.MultiIndex.from_arrays([k // 2, np.array(["x", "y"])[k % 2]], names=["run", None])
    if kind == "multidup":
        return pd.MultiIndex.from_arrays([np.array(["x", "y"])[rs.randint(2, size=n)], rs.randint(2, size=n)])
    if kind == "ocat":
        return pd.CategoricalIndex(column("ocat", n, rs))
    if kind == "flt":
        return pd.Index(rs.randint(5, size=n) / 4.0)
    if kind == "zeros":
        return pd.Index(np.zeros(n, dtype=int))
    raise KeyError(kind)


def frame(spec):
    rs = np.random.RandomState(spec["s"])
    n = spec["n"]
    df = pd.DataFrame({c: column(c, n, rs) for c in spec["cols"]})
    df["row"] = np.arange(n)
    if spec["nan"]:
        df["nan"] = np.where(rs.rand(n) < 0.5, np.nan, 1.0)
    df.index = index(spec["index"], n, rs)
    if spec["name"]:
        df.index.name = "case" if spec["name"] is True else spec["cols"][0]
    if spec["colperm"]:
        df = df[[df.columns[j] for j in rs.permutation(len(df.columns))]]
    return df


def gen_op(rng, first):
    cols = rng.sample(COLS, rng.choice([1, 2, 3, 4]))
    n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 10]) if rng.random() < 0.94 else rng.choice([30, 150, 1200])
    op = {"frame": {"s": rng.randrange(2 ** 31), "n": n, "cols": cols, "nan": rng.random() < 0.3,
                    "index": rng.choice(INDEXES),
                    "name": rng.choice([False] * 6 + [True, "column"]), "colperm": rng.random() < 0.3},
          "from": None, "mutate": rng.random() < 0.15, "seed": rng.randrange(2 ** 32), "splits": [], "flags": []}
    if not first and rng.random() < 0.4:
        op["from"] = rng.choice(["train", "test", "unused", "same"])
    # pandas makes no Series of a MultiIndex: no split by it
    choices = cols if op["frame"]["index"] in ("multi", "multidup") else cols + [None]
    for c in rng.sample(choices, min(len(choices), rng.choice([1, 1, 2, 2, 3]) if len(cols) > 1 else rng.choice([1, 2]))):
        how = rng.choice(["random", "random", "ordered", "linear"])
        kind = op["frame"]["index"] if c is None else c
        if kind not in NUMERIC + ("range", "perm", "dup", "desc", "zeros", "flt"):
            how = "ordered" if how == "linear" else how
        if kind in UNORDERED:
            how = "random"
        op["splits"].append([c, how, rng.choice(FRACS) if rng.random() < 0.8 else round(rng.random(), rng.choice([1, 2, 6]))])
        if rng.random() < 0.3:
            op["flags"].append(rng.choice(["u", "s"]) + str(len(op["splits"]) - 1))
        if rng.random() < 0.1:
            op["flags"].append(rng.choice(["u", "s"]) + str(len(op["splits"]) - 1))
    if rng.random() < 0.06:
        op["bad"] = rng.choice(["frac_low", "frac_high", "nan_col", "empty", "nosplit", "kind", "nocol"])
    if rng.random() < 0.06 and len(op["splits"]) == 1 and not op.get("bad"):
        op["default"] = True
    return op


def generate(rng, i, tier):
    if rng.random() < 0.03:
        return {"uniform": rng.choice(["mask", "subset", "df", "series", "two"]), "seed": rng.randrange(2 ** 32),
                "n": rng.choice([4, 5, 8]), "frac": rng.choice([0.25, 0.5, 0.6, 0.8])}
    return {"ops": [gen_op(rng, k == 0) for k in range(rng.choice([1, 2, 3]))],
            "steer": {"seed": rng.randrange(10 ** 6), "p": rng.choice([0.5, 1.0])} if rng.random() < 0.4 else None}


# -- the model --------------------------------------------------------------------


def keys_of(s):
    """Python values that compare as the column's values do."""
    if isinstance(s.dtype, pd.CategoricalDtype) and s.dtype.ordered:
        return [s.dtype.categories.get_loc(v) for v in s]
    return [v.item() if isinstance(v, np.generic) else v for v in s]


def counts(frac, n):
    return sorted({min(n, max(0, math.ceil(frac * n + e))) for e in (-1e-9, 0.0, 1e-9)})


def masks(values, how, frac):
    """Every train mask the criterion allows."""
    vals = list(values)
    if how == "random":
        cases = list(dict.fromkeys(vals))
        for k in counts(frac, len(cases)):
            for sub in itertools.combinations(cases, k):
                sub = set(sub)
                yield tuple(v in sub for v in vals)
    elif how == "ordered":
        cases = sorted(set(vals))
        for k in sorted({max(1, k) for k in counts(frac, len(cases))}):
            yield tuple(v <= cases[k - 1] for v in vals)
    else:
        lo, hi = min(vals), max(vals)
        F = Fraction
        pivot = (1 - F(frac)) * F(lo) + F(frac) * F(hi)
        # float64 arithmetic of the pivot: round-off of the size of the end points
        tol = max(abs(F(lo)), abs(F(hi))) * F(2) ** -50
        if frac in (0.0, 1.0) or lo == hi:
            tol = F(0)
            pivot = F(lo) if (frac == 0.0 or lo == hi) else F(hi)
        seen = set()
        cuts = {pivot - tol, pivot, pivot + tol} | {F(v) for v in vals if abs(F(v) - pivot) <= tol}
        for cut in sorted(cuts):
            m = tuple(F(v) <= cut or v == lo for v in vals)
            if m not in seen:
                seen.add(m)
                yield m


def n_masks(values, how, frac):
    if how != "random":
        return 1
    u = len(set(values))
    return sum(math.comb(u, k) for k in counts(frac, u))


def legal(parts, cols, n):
    """Does some choice of one mask per column give these three row lists?"""
    train, test, unused = [frozenset(p) for p in parts]

    def rec(k, tr, te):
        if k == len(cols):
            return tr == train and te == test
        for m in cols[k]:
            t = frozenset(i for i in tr if m[i])
            e = frozenset(i for i in te if not m[i])
            if train <= t and test <= e and rec(k + 1, t, e):
                return True
        return False

    allrows = frozenset(range(n))
    return rec(0, allrows, allrows)


def necessary(rows, cols, n, what):
    """Too many legal outcomes to list: what each of them satisfies, column by column."""
    train, test, unused = rows
    intr, inte = set(train), set(test)
    det = []
    for vals, how, frac in cols:
        if how == "random":
            vt, ve = {vals[i] for i in train}, {vals[i] for i in test}
            if vt & ve:
                raise core.Violation("illegal-split", "%s: cases %s are in both train and test" % (what, sorted(map(repr, vt & ve))[:5]))
            cs, u = counts(frac, len(set(vals))), len(set(vals))
            if len(vt) > max(cs) or len(ve) > u - min(cs) or (len(cols) == 1 and len(vt) not in cs):
                raise core.Violation("illegal-split", "%s: %d cases in train, %d in test, of %d; fraction %r" % (what, len(vt), len(ve), u, frac))
        else:
            det.append(list(masks(vals, how, frac)))
    for pick in itertools.product(*det):
        if all(all(m[i] for m in pick) for i in train) and all(not any(m[i] for m in pick) for i in test) and (
                len(det) < len(cols) or all(len({m[i] for m in pick}) == 2 for i in unused)):
            return
    raise core.Violation("illegal-split", "%s: the ordered and linear criteria do not give these parts (%d train, %d test, %d unused)" % (
        what, len(train), len(test), len(unused)))


# -- running ------------------------------------------------------------------------


def reject(lib, df, splits, what):
    if what == "frac_low":
        splits = {k: (h, -0.1) for k, (h, f) in splits.items()}
    elif what == "frac_high":
        splits = {k: (h, 1.5) for k, (h, f) in splits.items()}
    elif what == "nan_col":
        if len(df) == 0:
            return None
        df = df.copy()
        df["hole"] = [float("nan")] + [1.0] * (len(df) - 1)
        splits = dict(splits, hole=("random", 0.5))
    elif what == "empty":
        df = df.iloc[:0]
    elif what == "nosplit":
        splits = {}
    elif what == "kind":
        splits = {k: ("sorted", f) for k, (h, f) in splits.items()}
    elif what == "nocol":
        splits = dict(splits, nowhere=("random", 0.5))
    try:
        r = lib.data_splitter.split_df(df, splits)
    except Exception:
        return True
    raise core.Violation("accepted", "split_df accepted an invalid request (%s: %s) and returned parts of %s rows" % (
        what, splits, [len(p) for p in r]))


def check_parts(sc, df, before, parts, splits, run, what):
    if not isinstance(parts, tuple) or len(parts) != 3 or not all(isinstance(p, pd.DataFrame) for p in parts):
        raise core.Violation("shape", "%s: not three data frames: %r" % (what, type(parts)))
    n = len(df)
    rows = []
    for name, p in zip(("train", "test", "unused"), parts):
        if list(p.columns) != list(df.columns):
            raise core.Violation("contents", "%s: columns of %s are %s" % (what, name, list(p.columns)))
        r = [int(v) for v in p["row"].tolist()]
        rows.append(r)
        pos = [before["at"][v] for v in r] if all(v in before["at"] for v in r) else None
        if pos is None:
            raise core.Violation("contents", "%s: %s has rows that were not in the frame: %s" % (what, name, r))
        if pos != sorted(pos):
            raise core.Violation("row-order", "%s: %s rows come as %s" % (what, name, r))
        want = before["df"].iloc[pos]
        if ambient.fp(p) != ambient.fp(want):
            raise core.Violation("contents", "%s: %s is not the frame's rows %s:\n%s\n--\n%s" % (what, name, pos, p, want))
        rows[-1] = pos
    flat = [v for r in rows for v in r]
    if sorted(flat) != list(range(n)):
        raise core.Violation("not-a-partition", "%s: train %s, test %s, unused %s of %d rows" % (what, *rows, n))
    if len(splits) == 1 and rows[2]:
        raise core.Violation("not-a-partition", "%s: unused rows %s with a single criterion" % (what, rows[2]))
    if rows[2]:
        run.hit("probe/unused_rows")
    if not rows[0]:
        run.hit("probe/empty_train")
    cols, size = [], 1
    for c, (how, frac) in splits.items():
        vals = keys_of(before["df"].index if c is None else before["df"][c])
        size *= n_masks(vals, how, frac)
        cols.append((vals, how, frac))
    if size > 60000:
        run.hit("probe/large_frame")
        necessary(rows, cols, n, what)
        return rows
    # fewest alternatives first
    cols.sort(key=lambda t: n_masks(*t))
    if not legal(rows, [list(masks(*t)) for t in cols], n):
        raise core.Violation("illegal-split", "%s of %d rows: train %s, test %s, unused %s; values %s" % (
            what, n, *rows, {repr(c): keys_of(before["df"].index if c is None else before["df"][c]) for c in splits}))
    return rows


def one_series(ds, df, c, how, frac, run):
    """The mask for one column, asked for directly."""
    S = df.index.to_series() if c is None else df[c]
    vals = keys_of(S)
    if n_masks(vals, how, frac) > 60000:
        return
    what = "%s_split_series of %s, fraction %r" % (how, vals, frac)
    try:
        m = getattr(ds, how + "_split_series")(S, frac)
    except Exception as e:
        raise core.Violation("failed", "%s raised %s: %s" % (what, type(e).__name__, e))
    run.hit("probe/series")
    if not isinstance(m, pd.Series) or not pd.api.types.is_bool_dtype(m.dtype) or ambient.fp(m.index) != ambient.fp(S.index):
        raise core.Violation("shape", "%s is %r" % (what, m))
    if tuple(m.tolist()) not in {tuple(bool(v) for v in k) for k in masks(vals, how, frac)}:
        raise core.Violation("illegal-split", "%s is %s" % (what, m.tolist()))


def execute(sc, run):
    if "uniform" in sc:
        return uniform(sc, run)
    proc = seams.Proc("p", None, {}, entropy="c08")
    ch = proc.chance = chance.Chance(sc["steer"])
    with seams.use(proc):
        lib = loader.fresh()
        ds = lib.data_splitter
        last = None
        df = None
        for k, op in enumerate(sc["ops"]):
            if op["from"] is None or last is None:
                df = frame(op["frame"])
            elif op["from"] != "same":
                cand = last[("train", "test", "unused").index(op["from"])]
                if len(cand) == 0:
                    continue
                df = cand
                run.hit("probe/nested")
            splits, au, as_ = {}, [], []
            for j, (c, how, frac) in enumerate(op["splits"]):
                if (c is not None and c not in df.columns) or c in splits:
                    continue
                if c is None and isinstance(df.index, pd.MultiIndex):
                    continue
                if c is None and how == "linear" and df.index.dtype.kind not in "if":
                    how = "ordered"
                splits[c] = (how, frac)
                vals = keys_of(df.index if c is None else df[c])
                if "u%d" % j in op["flags"] and len(set(vals)) == len(vals):
                    au.append(c)
                    run.hit("probe/assume_unique")
                if "s%d" % j in op["flags"] and c not in UNORDERED and vals == sorted(vals):
                    as_.append(c)
                    run.hit("probe/assume_sorted")
                if how == "random":
                    run.hit("probe/random_column")
                    run.nontrivial = True
                if len(set(vals)) < len(vals):
                    run.hit("probe/groups")
                q = frac * len(set(vals))
                if q == int(q) and 0 < frac < 1:
                    run.hit("probe/integral_fraction")
                if c is None:
                    run.hit("probe/index_split")
                    if len(set(vals)) < len(vals):
                        run.hit("probe/duplicate_index")
            if not splits:
                continue
            if len(splits) > 1:
                run.hit("probe/multi_column")
                run.nontrivial = True
            what = "op %d: split_df(%s%s%s)" % (k, splits, ", assume_unique=%s" % au if au else "", ", assume_sorted=%s" % as_ if as_ else "")
            copy = df.copy(deep=True)
            before = {"df": copy, "at": {int(v): j for j, v in enumerate(copy["row"].tolist())}}
            if op.get("bad"):
                if reject(lib, df, splits, op["bad"]):
                    run.hit("probe/rejected")
                if ambient.fp(df) != ambient.fp(copy):
                    raise core.Violation("input-changed", "%s: the caller's frame changed" % what)
                continue
            np.random.seed(op["seed"])
            n0 = ch.steered
            try:
                if op.get("default") and not isinstance(df.index, pd.MultiIndex):
                    splits = {None: ("random", 0.8)}
                    what = "op %d: split_df(df)" % k
                    parts = ds.split_df(df)
                else:
                    kw = {}
                    if au:
                        kw["assume_unique"] = au
                    if as_:
                        kw["assume_sorted"] = as_
                    parts = ds.split_df(df, splits, **kw)
            except Exception as e:
                raise core.Violation("failed", "%s raised %s: %s on\n%s" % (what, type(e).__name__, e, copy))
            if ambient.fp(df) != ambient.fp(copy):
                raise core.Violation("input-changed", "%s: the caller's frame changed" % what)
            if ch.steered > n0:
                run.hit("fault/steered_draw")
                run.nontrivial = True
            rows = check_parts(sc, df, before, parts, splits, run, what)
            run.log(what, rows)
            if op["seed"] % 4 == 0:
                for c, (how, frac) in splits.items():
                    one_series(ds, copy, c, how, frac, run)
            if au and sc["steer"] is None and splits != {None: ("random", 0.8)}:
                np.random.seed(op["seed"])
                again = ds.split_df(df, splits)
                if [ambient.fp(p) for p in again] != [ambient.fp(p) for p in parts]:
                    raise core.Violation("assume-changes-result", "%s: with the same seed, other parts without the assumptions" % what)
            if op["mutate"]:
                # the caller writes into what it got: nobody else sees it
                run.hit("probe/caller_writes")
                got = [ambient.fp(p) for p in parts]
                for j in range(3):
                    if len(parts[j]):
                        p = parts[j]
                        with pd.option_context("mode.chained_assignment", None):
                            p.loc[:, "row"] = -1 - p["row"].values
                        rest = [ambient.fp(q) for q in parts]
                        for m in range(3):
                            if m != j and rest[m] != got[m]:
                                raise core.Violation("shared-result", "%s: writing into one part changed another" % what)
                        if ambient.fp(df) != ambient.fp(copy):
                            raise core.Violation("shared-result", "%s: writing into a part changed the caller's frame" % what)
                        with pd.option_context("mode.chained_assignment", None):
                            p.loc[:, "row"] = -1 - p["row"].values
                        break
            last = parts
        for k, v in ch.patterns.items():
            run.hit("fault/draw_" + k, v)
    run.simtime = proc.elapsed()


def uniform(sc, run):
    """Real draws: every case is as likely as any other, alone and in pairs (Hoeffding at 1e-13 each)."""
    n, frac, kind = sc["n"], sc["frac"], sc["uniform"]
    N = counts(frac, n)[0]
    if len(counts(frac, n)) > 1:
        N = math.ceil(round(frac * n, 6))
    proc = seams.Proc("p", None, {}, entropy="c08u")
    with seams.use(proc):
        lib = loader.fresh()
        ds = lib.data_splitter
        np.random.seed(sc["seed"])
        T = 3000 if kind in ("mask", "subset", "series") else 500
        one = np.zeros(n)
        two = np.zeros((n, n))
        S = pd.Series(np.arange(n) * 2 + 1)
        df = pd.DataFrame({"a": np.arange(n), "b": np.arange(n)[::-1] * 2})
        for _ in range(T):
            if kind == "mask":
                m = np.asarray(ds.rand_mask(n, frac))
            elif kind == "subset":
                m = np.isin(np.arange(n), ds.rand_subset(np.arange(n), frac))
            elif kind == "series":
                m = ds.random_split_series(S, frac).values
            elif kind == "df":
                m = np.isin(np.arange(n), ds.split_df(df, {"a": ("random", frac)})[0]["a"].values)
            else:
                m = np.isin(np.arange(n), ds.split_df(df, {"a": ("random", frac), "b": ("random", frac)})[0]["a"].values)
            one += m
            two += np.outer(m, m)
    p1 = N / n
    p2 = N * (N - 1) / (n * (n - 1.0))
    if kind == "two":
        p1, p2 = p1 ** 2, p2 ** 2
    t = math.sqrt(math.log(2e13) / (2.0 * T))
    run.hit("probe/uniform")
    run.nontrivial = True
    run.log("uniform", kind, n, frac, one.tolist())
    bad = np.abs(one / T - p1) > t
    if bad.any():
        raise core.Violation("not-uniform", "%s: %d draws of fraction %g of %d cases: case %d in train %d times, expected %.1f" % (
            kind, T, frac, n, int(np.argmax(bad)), int(one[np.argmax(bad)]), p1 * T))
    off = np.abs(two / T - p2) > t
    np.fill_diagonal(off, False)
    if off.any():
        i, j = np.argwhere(off)[0]
        raise core.Violation("not-uniform", "%s: %d draws of fraction %g of %d cases: cases %d and %d together %d times, expected %.1f" % (
            kind, T, frac, n, i, j, int(two[i, j]), p2 * T))
