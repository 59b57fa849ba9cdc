"""The randomness seam: numpy's global random functions, recorded and steered.

A Chance object is attached to a simulated process (`proc.chance`).  Every call
the library makes to a global numpy.random function goes through it: the draw is
recorded, and may be replaced by another value the function could legally have
returned (an adversarial draw).
"""
import random

import numpy as np

from vsim import seams

NAMES = ("multinomial", "choice", "randint", "permutation", "shuffle", "rand", "random", "random_sample", "uniform",
         "randn", "normal", "standard_normal", "poisson", "binomial", "exponential", "gamma", "dirichlet",
         "random_integers", "bytes", "beta", "integers")
_real = {}


class Chance:
    def __init__(self, steer=None):
        self.draws = []  # (name, args, result)
        self.steer = steer  # None: real draws; else dict(seed, p)
        self.rng = random.Random("steer/%s" % (steer or {}).get("seed"))
        self.steered = 0
        self.patterns = {}

    def hit(self, what):
        self.patterns[what] = self.patterns.get(what, 0) + 1
        self.steered += 1

    def on(self):
        return self.steer is not None and self.rng.random() < self.steer.get("p", 1.0)


def _rows(ch, n, pv, size, out):
    """Adversarial rows of a multinomial sample of n balls over len(pv) cells."""
    k = len(pv)
    ok = [j for j in range(k) if pv[j] > 0]
    flat = out.reshape(-1, k)
    hints = ch.steer.get("cells") or []  # subsets of cells the property wants emptied or filled
    mode = ch.rng.choice(["all", "some", "same", "some"])
    if mode == "same":
        flat[:] = flat[0]
        ch.hit("rows_identical")
        return out
    for r in range(len(flat)):
        if mode == "some" and ch.rng.random() < 0.5:
            continue
        pat = ch.rng.choice(["one_cell", "two_cells", "ones", "hint", "hint", "hint", "spread"])
        if pat == "hint" and not hints:
            pat = "spread"
        if pat == "hint" and hints:
            cells = [j for j in ch.rng.choice(hints) if j in ok]
        elif pat == "one_cell":
            cells = [ch.rng.choice(ok)]
        elif pat == "two_cells":
            cells = [ch.rng.choice(ok), ch.rng.choice(ok)]
        elif pat == "ones" and n == len(ok):
            row = np.zeros(k, dtype=flat.dtype)
            row[ok] = 1
            flat[r] = row
            ch.hit("identity_resample")
            continue
        else:
            cells = ok
        if not cells:
            continue
        row = np.zeros(k, dtype=flat.dtype)
        for _ in range(n):
            row[ch.rng.choice(cells)] += 1
        flat[r] = row
        ch.hit({"hint": "class_emptied", "one_cell": "one_point", "two_cells": "two_points"}.get(pat, "skewed"))
    return out


def _subset(ch, a, m, out):
    pop = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
    pat = ch.rng.choice(["first", "last", "reverse", "middle"])
    if pat == "first":
        got = pop[:m]
    elif pat == "last":
        got = pop[len(pop) - m:]
    elif pat == "reverse":
        got = pop[::-1][:m]
    else:
        s = (len(pop) - m) // 2
        got = pop[s:s + m]
    ch.hit("subset_" + pat)
    return np.array(got, dtype=getattr(out, "dtype", None)) if np.ndim(a) else np.array(got)


def _wrap(name, real):
    def f(*a, **kw):
        out = real(*a, **kw)
        proc = seams.current()
        ch = getattr(proc, "chance", None) if proc is not None else None
        if ch is None:
            return out
        if ch.on():
            try:
                if name == "multinomial":
                    n = kw.get("n", a[0] if a else None)
                    pv = kw.get("pvals", a[1] if len(a) > 1 else None)
                    if np.ndim(n) == 0:
                        out = _rows(ch, int(n), np.asarray(pv, dtype=float), None, np.array(out))
                elif name == "choice":
                    args = dict(zip(("a", "size", "replace", "p"), a))
                    args.update(kw)
                    if args.get("replace", True) is False and args.get("p") is None and np.ndim(args.get("size")) == 0 \
                            and args.get("size") is not None:
                        out = _subset(ch, args["a"], int(args["size"]), out)
                elif name == "permutation":
                    pop = np.arange(a[0]) if np.ndim(a[0]) == 0 else np.asarray(a[0])
                    if ch.rng.random() < 0.7:
                        out = pop.copy() if ch.rng.random() < 0.5 else pop[::-1].copy()
                        ch.hit("permutation_sorted")
                elif name in ("rand", "random", "random_sample") and np.ndim(out) == 1 and ch.rng.random() < 0.5:
                    out = np.where(np.arange(len(out)) % 2 == 0, 0.0, 1.0 - 2 ** -53)
                    ch.hit("uniform_extreme")
                elif name == "uniform" and np.ndim(out) == 1 and ch.rng.random() < 0.5:
                    args = dict(zip(("low", "high"), a))
                    args.update(kw)
                    lo, hi = float(args.get("low", 0.0)), float(args.get("high", 1.0))
                    out = lo + (hi - lo) * np.where(np.arange(len(out)) % 2 == 0, 0.0, 1.0 - 2 ** -53)
                    ch.hit("uniform_extreme")
            except Exception:
                ch.patterns["steer_skipped"] = ch.patterns.get("steer_skipped", 0) + 1
        ch.draws.append((name, a, kw, np.array(out, copy=True) if isinstance(out, np.ndarray) else out))
        return out

    f.__name__ = name
    return f


def install():
    if _real:
        return
    for n in NAMES:
        if hasattr(np.random, n):
            _real[n] = getattr(np.random, n)
            setattr(np.random, n, _wrap(n, _real[n]))


def weight_candidates(ch, N, n_boot):
    """Every recorded draw, or run of draws, that can be read as n_boot bootstrap resamples of N points."""
    out, blocks = [], []
    for name, a, kw, r in ch.draws:
        if not isinstance(r, np.ndarray):
            continue
        if name == "multinomial" and r.ndim in (1, 2) and r.shape[-1] == N and np.all(r.sum(axis=-1) == N):
            blocks.append(r.reshape(-1, N))
        elif name in ("choice", "randint", "integers", "random_integers") and r.dtype.kind in "iu" and N > 0 \
                and 0 < r.size <= n_boot * N and r.size % N == 0 and r.min() >= 0 and r.max() < N:
            ms = [r] if r.ndim == 2 and r.shape[1] == N else []
            ms += [r.T] if r.ndim == 2 and r.shape[0] == N and r.shape[1] != N else []
            ms += [r.reshape(-1, N)] if r.ndim == 1 else []
            for k, m in enumerate(ms):
                w = np.stack([np.bincount(row, minlength=N) for row in m])
                (out if k or len(w) == n_boot else blocks).append(w)
            if r.shape == (N, N):
                out += [np.stack([np.bincount(row, minlength=N) for row in r.T])] if N == n_boot else []
    # one draw of all replicates, one draw per replicate, or draws of some at a time
    k = 0
    while k < len(blocks):
        n, j = 0, k
        while j < len(blocks) and n < n_boot:
            n += len(blocks[j])
            j += 1
        if n == n_boot:
            out.append(blocks[k] if j == k + 1 else np.concatenate(blocks[k:j]))
            k = j
        else:
            k += 1
    return out


def wrong_count(ch, N, n_boot, sets=1):
    """The number of resamples drawn, when everything drawn is resamples of N points and they cannot be those of up to
    `sets` bootstraps of n_boot replicates (fewer than one, more than all); else None."""
    n = 0
    for name, a, kw, r in ch.draws:
        if name != "multinomial" or not isinstance(r, np.ndarray) or r.ndim not in (1, 2) or r.shape[-1] != N or not np.all(r.sum(axis=-1) == N):
            return None
        n += r.size // N
    return n if 0 < n < n_boot or n > n_boot * sets else None
