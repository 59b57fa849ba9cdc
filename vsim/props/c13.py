"""C13: the formatted report says what the table says."""
import decimal
import math
import re
from fractions import Fraction as F

import numpy as np
import pandas as pd

from vsim import ambient, core, lines, loader, ops, sched, seams

PID = "C13"
PLAN = {"quick": dict(runs=7000, wall=420, min=600, recheck=48),
        "thorough": dict(runs=150000, wall=3000, min=6000, recheck=300)}
SHRINK = ("tasks", "ops", "gaps", "picks", "rows", "metrics")
RULE = ("One to three simulated threads, each in its own decimal context, make one to three reports (just_format_it, or its steps, "
        "or the printing functions directly), some interrupted at a numbered library line and then made again; the text is parsed "
        "back and compared with the table in exact arithmetic. Non-trivial: a report with an estimate and its error bar was "
        "compared. Distinct by digest of tables, options, switches and texts.")
REAL = ["mlpaper.sciprint, constants, util (working tree)", "decimal, pandas", "real threads, released one at a time"]
STUBS = ["the choice of which thread runs (seeded scheduler)", "interrupt delivery (raised at a library line)"]
ASSUMPTIONS = ["names are short and contain no double spaces or parentheses", "the ambient precision is at least 24 digits",
               "means are finite or clipped, as documented", "an error bar that is exact with fewer digits may be shown with fewer"]
MUST_HIT = ("probe/report", "probe/steps", "probe/direct", "probe/ambient_differs", "probe/switched", "fault/interrupt_line",
            "probe/above_limit", "probe/below_limit", "probe/error_beyond_limit", "probe/error_zero", "probe/error_nan", "probe/tie",
            "probe/shifted", "probe/prefix", "probe/no_prefix_exists", "probe/tiny_p", "probe/nan_p", "probe/permuted", "probe/selected_columns", "probe/tex_header",
            "probe/impossible_scale", "probe/decade", "probe/all_clipped")
NAMES = ["zeta", "alpha", "m1", "m10", "Beta", "a b", "7", "iid", "s_v", "gp", "Zed", "k3", "lin", "w w w"]
METRICS = ["NLL", "Brier", "zero_one", "AUC", "t", "b_c_d", "100%"]
UNITS = ["s", "m", "nats", "%", "B"]
PREFIX = {-24: "y", -21: "z", -18: "a", -15: "f", -12: "p", -9: "n", -6: "u", -3: "m", -2: "c", -1: "d", 0: "", 3: "k", 6: "M", 9: "G",
          12: "T", 15: "P", 18: "E", 21: "Z", 24: "Y"}
TEX = dict(PREFIX)
TEX[-6] = r"$\mu$"


def gen_cell(rng, sc, lims):
    err = rng.choice(["nat", "nat", "nat", "nat", "edge", "edge", "none"])
    if err == "nat":
        e = abs(rng.gauss(0, 1)) * 10.0 ** (sc - rng.choice([0, 0, 1, 1, 2, 3, 5]))
    elif err == "edge":
        e = rng.choice([0.0995, 0.0999, 0.1, 1.0, 9.95, 0.5, 0.25, 3.0, 12.0, 100.0, 0.991, 0.04, 0.099, 0.0991, 1.1, 0.55]) * 10.0 ** sc
    else:
        e = rng.choice([0.0, float("inf"), float("nan")])
    k = rng.choice(["nat", "nat", "nat", "tie", "round", "zero", "nines"])
    if k == "nat":
        mu = rng.gauss(0, 1) * 10.0 ** (sc + rng.choice([0, 0, 0, 1, 3]))
    elif k == "tie":
        e = rng.choice([0.25, 0.75, 0.5, 12.0, 25.0, 0.125, 3.0])
        mu = rng.randrange(-2000, 2000) * rng.choice([0.125, 0.5, 0.25, 0.0625, 0.03125])
    elif k == "round":
        mu = float(rng.choice([1, -1, 5, 10, 100, -100, 123456, 99999.5, 1000000])) * rng.choice([1.0, 10.0 ** sc])
    elif k == "nines":
        mu = rng.choice([-1, 1]) * (1 - 10.0 ** -rng.randrange(1, 8)) * 10.0 ** sc
    else:
        mu = rng.choice([0.0, -0.0])
    if lims[0] is not None and rng.random() < 0.3:
        mu = rng.choice([float("inf"), 10.0 ** lims[0], 10.0 ** lims[0] * 1.001, 10.0 ** (lims[0] + 1)])
    if lims[1] is not None and rng.random() < 0.3:
        mu = rng.choice([float("-inf"), -10.0 ** lims[1], -10.0 ** lims[1] * 1.001, -10.0 ** (lims[1] + 1)])
    if not math.isfinite(mu) and math.isfinite(e):  # the error bar of an infinite mean is never finite
        e = rng.choice([float("inf"), float("nan")])
    if math.isfinite(e) and e > 0 and math.isfinite(mu) and abs(mu) / e > 1e14:
        e = abs(mu) * 1e-9
    p = rng.choice([rng.random(), rng.random(), rng.random() * 2e-4, 0.0, 1.0, float("nan"), 0.05, 0.0001, 0.0002, 0.00010001, 0.99995, 0.9999, 1e-9,
                    rng.randrange(1, 10001) * 1e-4, rng.random() ** 4])
    return [mu, e, min(p, 1.0) if p == p else p]


def gen_report(rng):
    metrics = rng.sample(METRICS, rng.choice([1, 1, 2, 3]))
    base = {m: rng.choice([0, 0, -1, -2, -3, 1, 2, 3, 4, -5, 6, -9, 9, -12]) for m in metrics}
    op = {"k": rng.choice(["just", "just", "steps"]), "metrics": metrics, "shift_mod": rng.choice([None, 1, 1, 3, 3, 2]),
          "use_prefix": rng.random() < 0.7, "unit": {m: rng.choice(UNITS) for m in metrics if rng.random() < 0.5},
          "nf": rng.choice([{}, {}, {"nan": "--"}, {"nan": "n/a", "inf": "oo"}]), "cmax": {}, "cmin": {}, "eb": {}, "perm": None}
    for m in metrics:
        if rng.random() < 0.25:
            op["cmax"][m] = base[m] + rng.choice([0, 1, 2])
        if rng.random() < 0.2:
            op["cmin"][m] = base[m] + rng.choice([0, 1, 2])
        if rng.random() < 0.25:
            op["eb"][m] = base[m] + rng.choice([-2, -1, 0, 1])
    op["rows"] = []
    for n in rng.sample(NAMES, rng.choice([1, 2, 2, 3, 5] * 3 + [13])):
        op["rows"].append({"name": n, "c": {m: gen_cell(rng, base[m], (op["cmax"].get(m), op["cmin"].get(m))) for m in metrics}})
    if rng.random() < 0.3:
        op["perm"] = rng.randrange(2 ** 31)
    if rng.random() < 0.15:
        op["selected"] = True
    if op["k"] == "steps":
        op.update(digits=[rng.choice([1, 2, 2, 3]), rng.choice([1, 3, 4, 4, 6]), rng.choice([1, 4, 5, 6])], pad=rng.random() < 0.7)
    return op


def gen_direct(rng):
    e = rng.choice([-6, -3, -2, -1, -1, 0])
    op = {"k": "direct", "mu": [rng.randrange(2), rng.choice([0, 5, 99, 123, 100000, rng.randrange(10 ** 7)]), e], "eb": rng.choice([0, 1, 7, 12, 99, 100, "inf", "nan"]),
          "shift": rng.randrange(-3, 4), "special": rng.choice([None, None, None, "inf", "-inf", "nan"]), "clip": rng.choice([None, [None, 2], [1, None], [2, 3]]),
          "p": [rng.choice([0, 1, 2, 9, 10 ** 4, 10 ** 4 - 1, rng.randrange(10 ** 4 + 1), "nan"]), 4], "nf": rng.choice([{}, {"nan": "--", "inf": "oo", "-inf": "-oo"}]),
          "pads": [rng.choice(["-55.5", "1.12(34)", "0", "nan", "1,234(5)", ">1,000", "<0.001", "12.5", "-0.0(1)"]) for _ in range(rng.choice([1, 2, 3, 5]))]}
    op["shift"] = min(op["shift"], -e) if op["special"] is None else op["shift"]
    return op


def generate(rng, i, tier):
    tasks = []
    for t in range(rng.choice([1, 1, 2, 2, 3])):
        mine = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if mine and rng.random() < 0.2:
                o = dict(rng.choice(mine))  # the same table again, with other options
                if o["k"] != "direct":
                    o["shift_mod"] = rng.choice([None, 1, 3])
                    o["use_prefix"] = not o["use_prefix"]
                    o["perm"] = rng.randrange(2 ** 31) if rng.random() < 0.5 else None
            else:
                o = gen_direct(rng) if rng.random() < 0.2 else gen_report(rng)
            if rng.random() < 0.15:
                o["fault"] = rng.choice([3, 10, 40, 150, 400])
                o["fault"] = rng.randrange(o["fault"])
            else:
                o.pop("fault", None)
            mine.append(o)
        amb = {}
        if rng.random() < 0.5:
            amb = rng.choice([{"prec": 24}, {"prec": 60}, {"rounding": "ROUND_DOWN"}, {"rounding": "ROUND_UP"}, {"rounding": "ROUND_FLOOR", "prec": 40},
                              {"rounding": "ROUND_CEILING"}, {"capitals": 0}, {"rounding": "ROUND_HALF_DOWN"}, {"rounding": "ROUND_05UP", "capitals": 0}])
        tasks.append({"ops": mine, "ambient": amb})
    n = rng.choice([1, 2, 3, 5, 10, 30]) if len(tasks) > 1 else 0
    top = rng.choice([5, 40, 200, 800])
    return {"tasks": tasks, "gaps": [rng.randrange(top) for _ in range(n)], "picks": [rng.randrange(6) for _ in range(n + 8 if n else 0)]}


def fixup(sc):
    for t in sc["tasks"]:
        if not t["ops"]:
            return None
        for o in t["ops"]:
            if o["k"] != "direct" and (not o["rows"] or not o["metrics"]):
                return None
    return sc if sc["tasks"] else None


# -- the model ----------------------------------------------------------------------


def ten(k):
    return F(10) ** k


def lead(x):
    """k with 10**k <= x < 10**(k+1)."""
    k = len(str(x.numerator)) - len(str(x.denominator))
    while ten(k) > x:
        k -= 1
    while ten(k + 1) <= x:
        k += 1
    return k


def ceil_to(x, q):
    return -((-x) // q) * q


def half_up(x, q):
    r = (abs(x) / q + F(1, 2)) // 1 * q
    return r if x >= 0 else -r


def quanta(e, digits):
    """(error bar as shown, places its last digit may have)."""
    x = F(e)
    q = ten(lead(x) - digits + 1)
    E = ceil_to(x, q)
    q0 = ten(lead(E) - digits + 1)
    out = [q0]
    if E == x:  # exact already: fewer digits may do
        q = q0 * 10
        while E % q == 0:
            out.append(q)
            q *= 10
    return E, out


def want_cell(cell, o, metric, digits):
    """Legal pictures of an estimate: list of ("above"|"below") or (value, error value or None, place or None)."""
    mu, e, _ = cell
    shown = None
    if e == e and math.isfinite(e) and e > 0 and not (metric in o["eb"] and F(e) > ten(o["eb"][metric])):
        shown = quanta(e, digits[0])
    out = []
    cmax, cmin = o["cmax"].get(metric), o["cmin"].get(metric)
    if not math.isfinite(mu):
        return ["above"] if mu > 0 else ["below"]
    x = F(mu)
    if shown is None:
        # five digits, whatever place that is
        if x:
            q = ten(lead(abs(x)) - digits[2] + 1)
            vals = [(half_up(x, q), "zero" if e == 0 else None, None)]
        else:
            vals = [(F(0), "zero" if e == 0 else None, None)]
    else:
        vals = [(half_up(x, q), shown[0], q) for q in shown[1]]
    for v in vals:
        if cmax is not None and v[0] > ten(cmax):
            out.append("above")
        elif cmin is not None and v[0] < -ten(cmin):
            out.append("below")
        else:
            out.append(v)
    if cmax is not None and x > ten(cmax):
        out.append("above")
    if cmin is not None and x < -ten(cmin):
        out.append("below")
    return out


NUM = re.compile(r"^([<>]?)(-?)(\d{1,3}(?:,\d{3})*|\d+)(?:\.(\d+))?(?:\((\d+)\))?$")


def parse(txt):
    """(mark, value, decimals, digits of the error bar) or None."""
    m = NUM.match(txt)
    if not m:
        return None
    mark, sign, whole, frac, eb = m.groups()
    if len(whole) > 3 and "," not in whole:
        return None
    v = F(int(whole.replace(",", "") + (frac or "")), 10 ** len(frac or ""))
    return mark, -v if sign else v, len(frac or ""), eb


def check_est(txt, cell, o, metric, shift, digits, what, run):
    want = want_cell(cell, o, metric, digits)
    got = parse(txt)
    bad = core.Violation("estimate", "%s: %r is not an estimate %r with error bar %r (scale 1e%d, limits %s/%s, error limit %s)" % (
        what, txt, cell[0], cell[1], shift, o["cmax"].get(metric), o["cmin"].get(metric), o["eb"].get(metric)))
    if got is None:
        raise bad
    mark, v, dec, eb = got
    if mark == ">":
        if "above" in want and v == ten(o["cmax"][metric] + shift) and eb is None:
            run.hit("probe/above_limit")
            return
        raise bad
    if mark == "<":
        if "below" in want and v == -ten(o["cmin"][metric] + shift) and eb is None:
            run.hit("probe/below_limit")
            return
        raise bad
    v = v / ten(shift)
    q = ten(-dec - shift)
    for w in want:
        if isinstance(w, str):
            continue
        val, err, place = w
        if v != val:
            continue
        if err is None:
            if eb is None:
                if cell[1] != cell[1]:
                    run.hit("probe/error_nan")
                elif math.isfinite(cell[1]):
                    run.hit("probe/error_beyond_limit")
                return
        elif err == "zero":
            if eb is not None and int(eb) == 0:
                run.hit("probe/error_zero")
                return
        elif eb is not None and place == q and int(eb) * q == err:
            run.nontrivial = True
            if abs(F(cell[0])) / q % 1 == F(1, 2):
                run.hit("probe/tie")
            if lead(err) > lead(F(cell[1])):
                run.hit("probe/decade")
            return
    raise bad


def check_p(txt, p, o, digits, what, run):
    if p != p:
        run.hit("probe/nan_p")
        if txt != o["nf"].get("nan", "nan"):
            raise core.Violation("p-value", "%s: missing p-value shown as %r" % (what, txt))
        return
    q = ten(-digits)
    c = ceil_to(F(p), q)
    got = parse(txt)
    if got is None or got[3] is not None or got[2] != digits or got[0] == ">":
        raise core.Violation("p-value", "%s: p-value %r shown as %r" % (what, p, txt))
    if c <= q:
        run.hit("probe/tiny_p")
        if got[0] != "<" or got[1] != q:
            raise core.Violation("p-value", "%s: p-value %r shown as %r" % (what, p, txt))
    elif got[0] or got[1] != c:
        raise core.Violation("p-value", "%s: p-value %r shown as %r, expected %r" % (what, p, txt, float(c)))


def check_header(head, o, metric, what, run, tex=False):
    """The scale a header states."""
    name = metric.replace("_", " ")
    unit = o["unit"].get(metric)
    if tex:
        run.hit("probe/tex_header")
        if not (head.startswith("{") and head.endswith("}")):
            raise core.Violation("header", "%s: %r" % (what, head))
        head = head[1:-1]
    m = re.match(re.escape(name) + (r"(?: \$\\times 10\^\{(-?\d+)\}\$)?" if tex else r"(?: x 1e(-?\d+))?") + r"(?: \((.*)\))?$", head)
    bad = core.Violation("header", "%s: header %r for %r, unit %r, prefixes %s" % (what, head, metric, unit, "on" if o["use_prefix"] else "off"))
    if not m:
        raise bad
    s, u = m.groups()
    pre = TEX if tex else PREFIX
    if unit is None:
        if u is not None:
            raise bad
        shift = int(s or 0)
    else:
        if u is None or not u.endswith(unit):
            raise bad
        x = u[:len(u) - len(unit)]
        ks = [k for k in pre if pre[k] == x]
        if not ks or (s is not None and x):
            raise bad
        shift = int(s) if s is not None else -ks[0]
        if x and o["use_prefix"]:
            run.hit("probe/prefix")
        if x and not o["use_prefix"]:
            raise bad
        if s is not None and o["use_prefix"]:
            run.hit("probe/no_prefix_exists")
            if -shift in pre:
                raise bad
    if s is not None and shift == 0:
        raise bad
    if (shift != 0 and o["shift_mod"] is None) or (o["shift_mod"] and shift % o["shift_mod"]):
        raise core.Violation("scale", "%s: scale 1e%d with shift_mod %r" % (what, shift, o["shift_mod"]))
    if shift:
        run.hit("probe/shifted")
    return shift


def dot(txt):
    """Position of the last digit before the point."""
    m = re.search(r"[.(]", txt)
    return (m.start() if m else len(txt.rstrip())) - 1


def width(v, e, eb, s):
    """Characters of an estimate at scale s, points and commas not counted."""
    n = abs(v) / ten(e)
    whole = n * ten(e + s) // 1
    return (v < 0) + len(str(int(whole))) + -(e + s) + (len(eb) + 2 if eb is not None else 0)


def check_scale(texts, shift, mod, what, text):
    """No other allowed scale shows the column shorter."""
    col = []
    for t in texts:
        mark, v, dec, eb = parse(t)
        if not mark:
            # a printed minus of a zero counts, too
            col.append((v / ten(shift), -(dec + shift), eb, 1 if t.startswith("-") and v == 0 else 0))
    if not col or mod is None:
        if shift:
            raise core.Violation("scale", "%s: scale 1e%d for nothing\n%s" % (what, shift, text))
        return
    top = min(-e for _, e, _, _ in col)
    low = min(-(lead(abs(v)) if v else e) for v, e, _, _ in col)
    cands = [s for s in range(min(low, top) - mod, top + 1) if s % mod == 0 and s >= low] or [top // mod * mod]
    w = {s: max(width(v, e, eb, s) + z for v, e, eb, z in col) for s in cands}
    if shift not in w or w[shift] > min(w.values()):
        raise core.Violation("scale", "%s: scale 1e%d, where %s would do\n%s" % (what, shift, w, text))
    if abs(shift) > min(abs(s) for s in w if w[s] == w[shift]):
        raise core.Violation("scale", "%s: scale 1e%d, where one nearer to none prints as short: %s\n%s" % (what, shift, w, text))


# -- making and judging the reports ----------------------------------------------------


def build(o):
    cols = [(m, s) for m in o["metrics"] for s in ("mean", "error", "p")]
    rows = [r["name"] for r in o["rows"]]
    vals = np.array([[r["c"][m][j] for m in o["metrics"] for j in range(3)] for r in o["rows"]], dtype=float).reshape(len(rows), len(cols))
    if o["perm"] is not None:
        ix = np.random.RandomState(o["perm"]).permutation(len(cols))
        cols, vals = [cols[k] for k in ix], vals[:, ix]
    tbl = pd.DataFrame(vals, index=pd.Index(rows, name="method"), columns=pd.MultiIndex.from_tuples(cols, names=["metric", "stat"]))
    return ops.selected(tbl) if o.get("selected") else tbl


def dec(sign, n, e):
    return decimal.Decimal((sign, tuple(int(c) for c in str(n)), e))


FORMAT_DEFAULTS = dict(unit_dict={}, shift_mod=None, crap_limit_max={}, crap_limit_min={}, EB_limit={}, non_finite_fmt={}, use_prefix=True,
                       err_digits=2, pval_digits=4, default_digits=5, pad=True)


def call(lib, o, tbl):
    sp = lib.sciprint
    if o["k"] == "direct":
        mu = dec(*o["mu"]) if o["special"] is None else decimal.Decimal(o["special"])
        eb = decimal.Decimal(o["eb"]) if isinstance(o["eb"], str) else dec(0, o["eb"], o["mu"][2])
        kw = {}
        if o["clip"]:
            if o["clip"][0] is not None:
                kw["min_clip"] = -decimal.Decimal(10) ** o["clip"][0]
            if o["clip"][1] is not None:
                kw["max_clip"] = decimal.Decimal(10) ** o["clip"][1]
        if o["special"] in ("inf", "-inf") and kw.get("max_clip" if o["special"] == "inf" else "min_clip") is None:
            kw = {}
        p = decimal.Decimal("nan") if o["p"][0] == "nan" else dec(0, o["p"][0], -o["p"][1])
        return (sp.print_estimate(mu, eb, **ops.spare(dict(kw, shift=o["shift"], non_finite_fmt=o["nf"]), shift=0, non_finite_fmt={})),
                sp.print_pval(p, **ops.spare(dict(non_finite_fmt=o["nf"]), non_finite_fmt={})),
                list(sp.pad_num_str(o["pads"], pad="~")), kw)
    if o["k"] == "just":
        return sp.just_format_it(tbl, **ops.spare(dict(
            unit_dict=dict(o["unit"]), shift_mod=o["shift_mod"], crap_limit_max=dict(o["cmax"]), crap_limit_min=dict(o["cmin"]),
            EB_limit=dict(o["eb"]), non_finite_fmt=dict(o["nf"]), use_prefix=o["use_prefix"]), **FORMAT_DEFAULTS))
    d = o["digits"]
    t = sp.decimalize(tbl, **ops.spare(dict(err_digits=d[0], pval_digits=d[1], default_digits=d[2], EB_limit=dict(o["eb"])), **FORMAT_DEFAULTS))
    s, shifts = sp.format_table(t, **ops.spare(dict(
        shift_mod=o["shift_mod"], pad=o["pad"], crap_limit_max=dict(o["cmax"]), crap_limit_min=dict(o["cmin"]), non_finite_fmt=dict(o["nf"])), **FORMAT_DEFAULTS))
    heads = [sp.adjust_headers(s.columns, shifts, dict(o["unit"]), use_prefix=o["use_prefix"], use_tex=x) for x in (False, True)]
    text = sp.table_to_string(s, shifts, dict(o["unit"]), **ops.spare(dict(use_prefix=o["use_prefix"]), **FORMAT_DEFAULTS))
    return t, s, shifts, heads, text


def may_fail(o, digits):
    """Without a shift, an estimate known to less than its units digit has no picture."""
    if o["shift_mod"] is not None:
        return False
    for r in o["rows"]:
        for m in o["metrics"]:
            for w in want_cell(r["c"][m], o, m, digits):
                if isinstance(w, str):
                    continue
                if w[2] is not None and w[2] > 1 or w[2] is None and abs(w[0]) >= ten(digits[2] - 1):
                    return True
    return False


def check_text(text, o, digits, what, run, aligned=True):
    ls = text.split("\n")
    rows = [r["name"] for r in o["rows"]]
    if len(ls) != len(rows) + 1:
        raise core.Violation("rows", "%s: %d lines for %d methods\n%s" % (what, len(ls), len(rows), text))
    rest = re.sub(r"\s+", " ", ls[0].strip()) + " "
    order, shifts = [], []
    while rest:
        for m in sorted(o["metrics"], key=lambda m: -len(m)):
            k = re.match("(" + re.escape(m.replace("_", " ")) + r"(?: x 1e-?\d+)?(?: \([^)]*\))?) p ", rest)
            if k and m not in order:
                order.append(m)
                shifts.append(check_header(k.group(1), o, m, what, run))
                rest = rest[k.end():]
                break
        else:
            raise core.Violation("header", "%s: header line %r for metrics %s" % (what, ls[0], o["metrics"]))
    if sorted(order) != sorted(o["metrics"]):
        raise core.Violation("header", "%s: header line %r for metrics %s" % (what, ls[0], o["metrics"]))
    places = [[] for _ in order]
    texts = [[] for _ in order]
    for line, r in zip(ls[1:], o["rows"]):
        if not line.strip().startswith(r["name"] + " "):
            raise core.Violation("rows", "%s: line %r for method %r\n%s" % (what, line, r["name"], text))
        at = line.index(r["name"]) + len(r["name"])
        toks = [(m.start(), m.group()) for m in re.finditer(r"\S+", line[at:])]
        if len(toks) != 2 * len(order):
            raise core.Violation("rows", "%s: line %r has %d entries for metrics %s" % (what, line, len(toks), order))
        for j, m in enumerate(order):
            w = "%s: %s of %s" % (what, m, r["name"])
            (pos, est), (_, p) = toks[2 * j], toks[2 * j + 1]
            check_est(est, r["c"][m], o, m, shifts[j], digits, w, run)
            check_p(p, r["c"][m][2], o, digits[1], w, run)
            places[j].append(at + pos + dot(est))
            texts[j].append(est)
    if aligned:
        for j, m in enumerate(order):
            if len(set(places[j])) > 1:
                raise core.Violation("alignment", "%s: the points of %s do not align\n%s" % (what, m, text))
    for j, m in enumerate(order):
        check_scale(texts[j], shifts[j], o["shift_mod"], "%s: %s" % (what, m), text)
    return dict(zip(order, shifts))


def judge(o, res, what, run):
    if o["k"] == "direct":
        return judge_direct(o, res, what, run)
    digits = o.get("digits", [2, 4, 5])
    if o["perm"] is not None:
        run.hit("probe/permuted")
    if o.get("selected"):
        run.hit("probe/selected_columns")
    if res[0] == "error":
        if may_fail(o, digits) and isinstance(res[1], ValueError):
            run.hit("probe/impossible_scale")
            return
        raise core.Violation("failed", "%s raised %s: %s\n%s" % (what, type(res[1]).__name__, str(res[1])[:300], o))
    for m in o["metrics"]:
        if all(all(isinstance(w, str) for w in want_cell(r["c"][m], o, m, digits)) for r in o["rows"]):
            run.hit("probe/all_clipped")
    if o["k"] == "just":
        run.hit("probe/report")
        check_text(res[1], o, digits, what, run)
        return
    run.hit("probe/steps")
    t, s, shifts, heads, text = res[1]
    if list(t.index) != [r["name"] for r in o["rows"]] or list(s.index) != list(t.index):
        raise core.Violation("rows", "%s: rows %s" % (what, list(s.index)))
    cells = {r["name"]: r["c"] for r in o["rows"]}
    sh = check_text(text, o, digits, what + " text", run, aligned=o["pad"])
    if {k: int(v) for k, v in shifts.items()} != sh:
        raise core.Violation("scale", "%s: shifts %s, headers say %s" % (what, shifts, sh))
    for (m, stat), plain, tex in zip(s.columns, *heads):
        if stat == "p":
            if plain != "p" or tex != "{p}":
                raise core.Violation("header", "%s: header %r, %r of a p-value" % (what, plain, tex))
            continue
        if check_header(plain, o, m, what, run) != sh[m] or check_header(tex, o, m, what, run, tex=True) != sh[m]:
            raise core.Violation("header", "%s: headers %r and %r for scale 1e%d" % (what, plain, tex, sh[m]))
    for m in o["metrics"]:
        places = set()
        for n in cells:
            est, p = s.loc[n, (m, "estimate")], s.loc[n, (m, "p")]
            w = "%s: %s of %s" % (what, m, n)
            check_est(est.strip(), cells[n][m], o, m, sh[m], digits, w, run)
            check_p(p.strip(), cells[n][m][2], o, digits[1], w, run)
            places.add(len(est) - dot(est))
            if not o["pad"] and est != est.strip():
                raise core.Violation("alignment", "%s: %r is padded" % (w, est))
            # the decimal table
            mu, e, pv = (t.loc[n, (m, x)] for x in ("mean", "error", "p"))
            cell = cells[n][m]
            clipless = dict(o, cmax={}, cmin={})
            want = [v for v in want_cell(cell, clipless, m, digits) if not isinstance(v, str)]
            if mu.is_finite() != math.isfinite(cell[0]) or (mu.is_finite() and F(mu) not in [v[0] for v in want]):
                raise core.Violation("decimal", "%s: mean %r became %s with error bar %r" % (w, cell[0], mu, cell[1]))
            if want:
                x = want[0][1]
                ok = e.is_nan() if cell[1] != cell[1] else e == decimal.Decimal("inf") if x is None else e.is_zero() if x == "zero" else F(e) == x
                if not ok:
                    raise core.Violation("decimal", "%s: error bar %r became %s" % (w, cell[1], e))
            if pv.is_nan() != (cell[2] != cell[2]) or (not pv.is_nan() and F(pv) != ceil_to(F(cell[2]), ten(-digits[1]))):
                raise core.Violation("decimal", "%s: p-value %r became %s" % (w, cell[2], pv))
        if o["pad"] and len(places) > 1:
            raise core.Violation("alignment", "%s: the points of %s do not align: %r" % (what, m, list(s[(m, "estimate")])))


def judge_direct(o, res, what, run):
    run.hit("probe/direct")
    if res[0] == "error":
        raise core.Violation("failed", "%s raised %s: %s\n%s" % (what, type(res[1]).__name__, str(res[1])[:300], o))
    est, p, pads, kw = res[1]
    lo, hi = kw.get("min_clip"), kw.get("max_clip")
    mu = F(dec(*o["mu"])) if o["special"] is None else {"inf": math.inf, "-inf": -math.inf, "nan": math.nan}[o["special"]]
    got = parse(est)
    sc = ten(o["shift"])
    if hi is not None and mu > F(hi):
        ok = got is not None and got[0] == ">" and got[1] == F(hi) * sc and got[3] is None
    elif lo is not None and mu < F(lo):
        ok = got is not None and got[0] == "<" and got[1] == F(lo) * sc and got[3] is None
    elif o["special"] is not None:
        ok = est == o["nf"].get(o["special"], o["special"])
    else:
        ok = got is not None and not got[0] and got[1] == mu * sc and got[2] == max(0, -o["mu"][2] - o["shift"])
        if ok:
            ok = got[3] is None if isinstance(o["eb"], str) else got[3] is not None and int(got[3]) == o["eb"]
    if not ok:
        raise core.Violation("estimate", "%s: print_estimate gives %r for %s" % (what, est, o))
    if o["p"][0] == "nan":
        ok = p == o["nf"].get("nan", "nan")
    else:
        got = parse(p)
        ok = got is not None and got[2] == o["p"][1] and got[3] is None and (
            (got[0] == "<" and got[1] == ten(-o["p"][1])) if o["p"][0] <= 1 else not got[0] and got[1] == o["p"][0] * ten(-o["p"][1]))
    if not ok:
        raise core.Violation("p-value", "%s: print_pval gives %r for %s" % (what, p, o["p"]))
    if [x.rstrip("~") for x in pads] != list(o["pads"]):
        raise core.Violation("alignment", "%s: pad_num_str turns %s into %s" % (what, o["pads"], pads))
    ends = {len(x) - dot(y) for x, y in zip(pads, o["pads"])}
    if len(ends) > 1 or all(x.endswith("~") for x in pads):
        raise core.Violation("alignment", "%s: pad_num_str turns %s into %s" % (what, o["pads"], pads))


def execute(sc, run):
    ambient.reset()
    sch = sched.Sched(sc["gaps"], sc["picks"])
    main = seams.Proc("main", None, {}, entropy=1)
    with seams.use(main):
        lib = loader.fresh()
    results = {}

    def hook(code, where):
        seams.current().sched.yield_point("code")

    def task(k, t, proc):
        def fn():
            ambient.perturb(t["ambient"])
            for j, o in enumerate(t["ops"]):
                tbl = None if o["k"] == "direct" else build(o)
                if "fault" in o:
                    inj = lines.Injector(o["fault"], KeyboardInterrupt)
                    proc.line_hook = inj
                    try:
                        call(lib, o, tbl)
                    except KeyboardInterrupt:
                        run.hit("fault/interrupt_line")
                    except Exception:
                        pass
                    finally:
                        proc.line_hook = None
                proc.line_hook = hook
                try:
                    results[k, j] = ("ok", call(lib, o, tbl))
                except Exception as e:
                    results[k, j] = ("error", e)
                finally:
                    proc.line_hook = None
        return fn

    sched.monitor("line" if len(sc["tasks"]) > 1 or any("fault" in o for t in sc["tasks"] for o in t["ops"]) else None)
    procs = []
    for k, t in enumerate(sc["tasks"]):
        proc = seams.Proc("t%d" % k, None, {}, entropy=k)
        procs.append(proc)
        sch.add(proc, task(k, t, proc))
        if t["ambient"]:
            run.hit("probe/ambient_differs")
    with core.quiet():
        sch.run()
    sched.monitor(None)
    ambient.reset()
    if sch.switches:
        run.hit("probe/switched")
        run.hit("fault/preemption", sch.switches)
    run.simtime = float(sum(p.elapsed() for p in procs))
    if sch.deadlock:
        raise core.Violation("deadlock", "the threads block each other")
    for k, t in enumerate(sch.tasks):
        if t.error is not None:
            raise t.error
    for (k, j), res in sorted(results.items(), key=lambda x: x[0]):
        o = sc["tasks"][k]["ops"][j]
        run.log(k, j, o, str(res[1])[:3000])
        judge(o, res, "thread %d report %d" % (k, j), run)
    run.log(sch.trace)
