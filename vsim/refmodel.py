"""An independent, deliberately plain model of what mlpaper computes.

Written from the documentation, in scalar Python where that is affordable, so
that it shares no code with the library.
"""
import math

import numpy as np

INF = float("inf")


# -- predictive tables --------------------------------------------------------


def log_normalise(row):
    m = max(row)
    if m == -INF or m == INF or any(v != v for v in row):
        return [float("nan")] * len(row)
    z = m + math.log(math.fsum(math.exp(v - m) for v in row))
    return [v - z for v in row]


def pred_table(prob, floor):
    """Probabilities -> floored, renormalised log probabilities."""
    out = []
    for row in np.asarray(prob, dtype=float).tolist():
        out.append(log_normalise([max(floor, math.log(p) if p > 0 else -INF) for p in row]))
    return np.array(out)


def log_table(logp, floor):
    out = []
    for row in np.asarray(logp, dtype=float).tolist():
        out.append(log_normalise([v if v != v else max(floor, v) for v in row]))
    return np.array(out)


def close(a, b, rtol=1e-9, atol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    nan = np.isnan(a) & np.isnan(b)
    same = a == b
    with np.errstate(invalid="ignore", over="ignore"):
        near = np.isfinite(a) & np.isfinite(b) & (np.abs(a - b) <= atol + rtol * np.abs(b))
    return bool(np.all(nan | same | near))


# -- losses -------------------------------------------------------------------


def clf_loss(name, y, logp):
    """Per-point losses; zero_one gives a set of the values the optimal actions allow."""
    out = []
    for yi, row in zip(np.asarray(y).astype(int).tolist(), np.asarray(logp, dtype=float).tolist()):
        k = len(row)
        p = [math.exp(v) for v in row]
        if name == "NLL":
            out.append(-row[yi] + 0.0)
        elif name in ("Brier", "Brier_raw"):
            s = math.fsum((p[j] - (1.0 if j == yi else 0.0)) ** 2 for j in range(k))
            out.append(s * k / (k - 1.0) if k > 1 and name == "Brier" else s)
        elif name in ("sphere", "sphere_raw"):
            z = max(row)
            den = math.sqrt(math.fsum(math.exp(2 * (v - z)) for v in row))
            s = -math.exp(row[yi] - z) / den
            if name == "sphere":
                c = 1.0 - 1.0 / math.sqrt(k) if k > 1 else 1.0
                s = (1.0 + s) / c
            out.append(s)
        elif name == "zero_one":
            best = max(p)
            acts = [j for j in range(k) if p[j] >= best - 1e-12]
            out.append(frozenset(0.0 if a == yi else 1.0 for a in acts))
        else:
            raise KeyError(name)
    return out


def reg_loss(name, y, mu, std):
    out = []
    for a, m, s in zip(*[np.asarray(v, dtype=float).tolist() for v in (y, mu, std)]):
        if name == "MSE":
            out.append((a - m) ** 2)
        elif name == "MAE":
            out.append(abs(a - m))
        elif name == "pinball":
            d = a - (m + s)
            out.append(0.75 * d if d >= 0 else -0.25 * d)
        elif name == "NLL":
            z = (a - m) / s
            out.append(0.5 * z * z + math.log(s) + 0.5 * math.log(2 * math.pi))
        else:
            raise KeyError(name)
    return out


def losses_match(got, want, rtol=1e-9, atol=1e-9):
    for g, w in zip(np.asarray(got, dtype=float).tolist(), want):
        if isinstance(w, frozenset):
            if not any(abs(g - v) <= 1e-9 for v in w):
                return False
        elif not close([g], [w], rtol, atol):
            return False
    return len(got) == len(want)


# -- means, error bars, tests -------------------------------------------------


def mean(x):
    x = [float(v) for v in x]
    if all(math.isfinite(v) for v in x):
        return math.fsum(x) / len(x)
    if any(v != v for v in x) or (INF in x and -INF in x):
        return float("nan")
    return INF if INF in x else -INF


def _var(x, ddof):
    m = mean(x)
    return math.fsum((v - m) ** 2 for v in x) / (len(x) - ddof)


def t_stats(x, confidence):
    """(EB, p) of the t interval and test of a zero mean."""
    from scipy.special import stdtr, stdtrit

    x = [float(v) for v in x]
    n = len(x)
    if n <= 1 or not all(math.isfinite(v) for v in x):
        return INF, 1.0
    m, sem = mean(x), math.sqrt(_var(x, 1) / n)
    EB = float(stdtrit(n - 1, 0.5 + confidence / 2.0)) * sem
    if sem == 0.0:
        return EB, (1.0 if m == 0.0 else 0.0)
    return EB, min(1.0, 2.0 * float(stdtr(n - 1, -abs(m) / sem)))


def bernstein_stats(x, lower, upper, confidence):
    x = [float(v) for v in x]
    n, r = len(x), upper - lower
    if n <= 1 or not all(math.isfinite(v) for v in x):
        return r, 1.0
    m, sd = mean(x), math.sqrt(_var(x, 0))
    A = math.log(3.0 / (1.0 - confidence))
    EB = sd * math.sqrt(2.0 * A / n) + 3.0 * A * r / n
    if r == 0.0 or r == INF:
        return EB, 1.0
    # |m| = sd sqrt(2 B / n) + 3 B r / n, solved for B
    a, b, c = 3.0 * r / n, sd * math.sqrt(2.0 / n), -abs(m)
    s = 2.0 * -c / (b + math.sqrt(b * b - 4 * a * c)) if c else 0.0
    return EB, min(1.0, 3.0 * math.exp(-s * s))


def clip_EB(mu, EB, lower, upper, min_EB=0.0):
    triv = max([v for v in (upper - mu, mu - lower) if v == v] or [INF])
    if EB != EB:
        return EB
    return min(max(EB, min_EB), triv)


# -- bootstrap ------------------------------------------------------------------


def quantile_index(n, q, side):
    """Candidate 0-based ranks of the q-quantile (q in [0, 1]) of n values, rounded outward."""
    pos = (n - 1) * q
    out = set()
    for eps in (-1e-9, 0.0, 1e-9):
        k = math.floor(pos + eps) if side == "lower" else math.ceil(pos + eps)
        out.add(min(max(k, 0), n - 1))
    return sorted(out)


def boot_bounds(vals, confidence):
    """Candidate (LB, UB) pairs of the percentile interval."""
    s = sorted(vals)
    a = 0.5 * (1.0 - confidence)
    lo = [s[k] for k in quantile_index(len(s), a, "lower")]
    hi = [s[k] for k in quantile_index(len(s), 1.0 - a, "higher")]
    return lo, hi


def fmax(a, b):
    return b if a != a else a if b != b else max(a, b)


def _sub(a, b):
    return float("nan") if (a == b and math.isinf(a)) else a - b


def boot_EB(vals, mu, confidence):
    lo, hi = boot_bounds(vals, confidence)
    return [fmax(_sub(u, mu), _sub(mu, v)) for v in lo for u in hi]


def boot_p(vals, refs, tol):
    """Interval of p-values: pairs closer than tol may count either way."""
    n = len(vals)
    le_lo = le_hi = ge_lo = ge_hi = 0
    for v, r in zip(vals, refs):
        if v == r:
            near = True
            # exactly equal in the model: either way when the system's round-off may differ
            if tol == 0.0 or math.isinf(v):
                le_lo += 1; le_hi += 1; ge_lo += 1; ge_hi += 1
                continue
        else:
            near = math.isfinite(v) and math.isfinite(r) and abs(v - r) <= tol
        if near:
            le_hi += 1
            ge_hi += 1
        elif v < r:
            le_lo += 1; le_hi += 1
        else:
            ge_lo += 1; ge_hi += 1
    p = lambda a, b: min(1.0, 2.0 * min(a, b) / float(n))
    return p(le_lo, ge_lo), p(le_hi, ge_hi)


# -- performance curves -----------------------------------------------------------

EPS = 1e-10


def curve_points(name, y, score, w=None):
    """(x, y, kind) of a ROC, recall-precision or precision-recall-gain curve, one weight vector."""
    n = len(y)
    w = [1.0] * n if w is None else [float(v) for v in w]
    order = sorted(range(n), key=lambda i: -score[i])
    tps, fps = [0.0], [0.0]
    t = f = 0.0
    for k, i in enumerate(order):
        if y[i]:
            t += w[i]
        else:
            f += w[i]
        if k == n - 1 or score[order[k + 1]] != score[i]:
            tps.append(t)
            fps.append(f)
    if fps[-1] == 0:
        fps = [EPS * v for v in tps]
    if tps[-1] == 0:
        tps = [EPS * v for v in fps]
    P, N = tps[-1], fps[-1]
    if name == "AUC":
        return [v / N for v in fps], [v / P for v in tps], "linear"
    if name == "AP":
        rec = [v / P for v in tps]
        prec = [float("nan")] + [tv / (tv + fv) for tv, fv in zip(tps[1:], fps[1:])]
        prec[0] = prec[1]
        return rec, prec, "previous"
    if name == "AUPRG":
        rg, pg = [], []
        for tv, fv in zip(tps, fps):
            den = N * tv
            rg.append(1.0 - P * (P - tv) / den if den > 0 else -INF)
            pg.append(1.0 - P * fv / den if den > 0 else (-INF if fv > 0 else float("nan")))
        pg[0] = pg[1]
        return [max(0.0, v) for v in rg], pg, "previous"
    raise KeyError(name)


def curve_area(x, y, kind):
    s = 0.0
    for k in range(len(x) - 1):
        d = x[k + 1] - x[k]
        if d == 0:
            continue
        s += d * (y[k] if kind == "previous" else 0.5 * (y[k] + y[k + 1]))
    return s


def curve_eval(x, y, kind, g, slack=1e-8):
    """Interval (lo, hi) of the curve's value at g; at (nearly) a jump, either side counts."""
    vals = [yv for xv, yv in zip(x, y) if abs(xv - g) <= slack]
    for q in (g - slack, g, g + slack):
        q = min(max(q, x[0]), x[-1])
        if kind == "previous":
            k = max(i for i in range(len(x)) if x[i] <= q)
            vals.append(y[k])
        else:
            hi = min(i for i in range(len(x)) if x[i] >= q)
            if hi == 0:
                # points on top of each other at the left end: any of them
                vals += [y[i] for i in range(len(x)) if x[i] == x[0]]
                continue
            lo = hi - 1
            d = x[hi] - x[lo]
            vals.append(y[lo] + (y[hi] - y[lo]) * ((q - x[lo]) / d) if d > 0 else y[lo])
            if x[hi] == q:  # a vertical piece of the curve: every point of it
                vals += [y[i] for i in range(len(x)) if x[i] == q]
    return min(vals), max(vals)


# -- performance curves with honest round-off ---------------------------------------


def curve_bands(name, y, score, w=None):
    """Points of a curve as (x, dx, ylo, yhi, raw x or None), kind; dx and the y band cover the round-off of
    float64 evaluation, in particular of resamples where one class has only token weight."""
    n = len(y)
    w = [1.0] * n if w is None else [float(v) for v in w]
    order = sorted(range(n), key=lambda i: -score[i])
    tps, fps = [0.0], [0.0]
    t = f = 0.0
    for k, i in enumerate(order):
        if y[i]:
            t += w[i]
        else:
            f += w[i]
        if k == n - 1 or score[order[k + 1]] != score[i]:
            tps.append(t)
            fps.append(f)
    if fps[-1] == 0:
        fps = [EPS * v for v in tps]
    if tps[-1] == 0:
        tps = [EPS * v for v in fps]
    P, N = tps[-1], fps[-1]
    total = math.fsum(w)
    ulp = 4e-16 * (total + 1.0) * n  # absolute error of a count of false positives
    ep, en = 1e-14 * n, min(1.0, ulp / N + 1e-14 * n)  # relative error of the totals
    out = []
    if name == "AUC":
        for tv, fv in zip(tps, fps):
            e = ep
            out.append((fv / N, 2 * en, tv / P - e, tv / P + e, None))
        return out, "linear"
    if name == "AP":
        for tv, fv in zip(tps, fps):
            if tv + fv == 0:
                out.append((tv / P, 0.0, None, None, None))
                continue
            v = tv / (tv + fv)
            e = min(1.0, ulp / (tv + fv) + ep)
            out.append((tv / P, ep if tv < P and tv > 0 else 0.0, v - e, v + e, None))
        out[0] = out[0][:2] + out[1][2:]
        return out, "previous"
    if name == "AUPRG":
        for tv, fv in zip(tps, fps):
            den = N * tv
            if den > 0:
                a = P * (P - tv) / den
                r, er = 1.0 - a, a * (en + ep) * 3 + 1e-15
                b = P * fv / den
                v, ev = 1.0 - b, b * (en + ep) * 3 + P * ulp / den + 1e-15
                if tv == P:
                    r, er = 1.0, 0.0
                x = max(0.0, r)
                dx = er if r > -er else 0.0
                out.append((x, dx, v - ev, v + ev, (r, er)))
            else:
                out.append((0.0, 0.0, -INF, -INF, (-INF, 0.0)))
        out[0] = out[0][:2] + out[1][2:4] + (out[0][4],)
        return out, "previous"
    raise KeyError(name)


def band_area(pts, kind):
    """(lo, hi) of the area."""
    lo = hi = 0.0
    for k in range(len(pts) - 1):
        x0, d0, a0, b0, _ = pts[k]
        x1, d1, a1, b1, _ = pts[k + 1]
        wmin, wmax = max(0.0, x1 - x0 - d0 - d1), max(0.0, x1 - x0 + d0 + d1)
        if kind == "linear":
            a0, b0 = 0.5 * (a0 + a1), 0.5 * (b0 + b1)
        if wmax == 0.0:
            continue
        if b0 == -INF:  # any width at all makes it -inf, none leaves it out
            if wmin > 0:
                return -INF, -INF
            lo = -INF
            continue
        c = [a0 * wmin, a0 * wmax, b0 * wmin, b0 * wmax]
        lo += min(c)
        hi += max(c)
    return lo, hi


def band_eval(pts, kind, g, slack=1e-9):
    """(lo, hi) of the curve's value at g."""
    vals = []
    n = len(pts)
    if kind == "previous" and g == 1.0:  # the curve ends there, on its last point
        return pts[-1][2], pts[-1][3]
    for k in range(n):
        x, d, a, b, _ = pts[k]
        if abs(x - g) <= d + slack:
            vals += [a, b]
        if x - d - slack <= g and (k + 1 == n or pts[k + 1][0] + pts[k + 1][1] + slack >= g):
            # the point before g
            if kind == "previous":
                vals += [a, b]
            elif k + 1 < n:
                x1, d1, a1, b1, _ = pts[k + 1]
                w = x1 - x
                if w <= 2 * (d + d1 + slack):
                    vals += [a, b, a1, b1]
                else:
                    f = [min(1.0, max(0.0, (g - x + s * (d + d1 + slack)) / w)) for s in (-1, 0, 1)]
                    vals += [a + (a1 - a) * q for q in f] + [b + (b1 - b) * q for q in f]
    if not vals:
        return -INF, INF
    return min(vals), max(vals)


def order_band(bands, idx):
    """Interval of the idx-th smallest value when each value is only known up to a band."""
    return sorted(b[0] for b in bands)[idx], sorted(b[1] for b in bands)[idx]


def percentile_bands(bands, confidence):
    """Candidate bands of the lower and the upper percentile."""
    n, a = len(bands), 0.5 * (1.0 - confidence)
    lo = [order_band(bands, k) for k in quantile_index(n, a, "lower")]
    hi = [order_band(bands, k) for k in quantile_index(n, 1.0 - a, "higher")]
    return lo, hi


def sub_band(a, b):
    """Band of a - b, with equal infinities cancelling to zero."""
    cand = []
    for x in a:
        for y in b:
            cand.append(0.0 if (math.isinf(x) and x == y) else x - y)
    if a[0] != a[1] or b[0] != b[1]:
        if a[0] <= b[1] and b[0] <= a[1]:
            cand.append(0.0)
    return min(cand), max(cand)


def p_band(bands, refs):
    n = len(bands)
    sure_le = sure_ge = may_le = may_ge = 0
    for (a, b), (c, d) in zip(bands, refs):
        may_le += a <= d
        may_ge += c <= b
        sure_le += b <= c
        sure_ge += d <= a
    p = lambda u, v: min(1.0, 2.0 * min(u, v) / float(n))
    return p(sure_le, sure_ge), p(may_le, may_ge)
