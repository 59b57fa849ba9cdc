"""C14: tie-breaking noise keeps the order and makes values distinct, on any draw."""
import numpy as np

from vsim import chance, core, loader, seams

PID = "C14"
PLAN = {"quick": dict(runs=20000, wall=300, min=1000, recheck=48),
        "thorough": dict(runs=300000, wall=2000, min=10000, recheck=300)}
SHRINK = ("ops",)
RULE = ("A session of epsilon_noise calls on seeded vectors (ties, constants, empty, tiny gaps at large offsets, integers, huge ranges) "
        "under real and extreme draws of the random stream. Non-trivial: at least two points. Distinct by digest of inputs and results.")
REAL = ["mlpaper.util (working tree)", "numpy"]
STUBS = ["numpy.random's global functions: recorded, and in part replaced by extreme legal draws"]
ASSUMPTIONS = ["values may collide when the gap is within a few units in the last place, or under an extreme draw of equal uniforms"]
MUST_HIT = ("probe/noise", "probe/ties", "probe/constant", "probe/empty", "probe/tiny_gap", "probe/capped", "fault/steered_draw",
            "fault/draw_uniform_extreme", "probe/distinct", "probe/rejected", "probe/integers", "probe/again", "probe/many_values")
KINDS = ["unit", "ties", "const", "empty", "one", "offset", "huge", "ints", "tiny", "mixed", "neg", "two"]


def generate(rng, i, tier):
    ops = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        op = {"k": rng.choice(KINDS), "s": rng.randrange(2 ** 31), "n": rng.choice([2, 3, 5, 10, 40, 200])}
        if rng.random() < 0.02:
            op["n"] = rng.choice([800, 3000])
        if rng.random() < 0.3:
            op["max"] = rng.choice([1e-3, 0.1, 5.0, 1e-9])
        if rng.random() < 0.3:
            op["default"] = rng.choice([1e-12, 1e-3, 0.5])
        if rng.random() < 0.1:
            op["bad"] = rng.choice(["nan", "inf", "-inf"])
        op["again"] = rng.random() < 0.2
        ops.append(op)
    return {"ops": ops, "seed": rng.randrange(2 ** 32), "steer": {"seed": rng.randrange(2 ** 31), "p": rng.choice([0.5, 1.0])} if rng.random() < 0.5 else None}


def vec(op):
    rs = np.random.RandomState(op["s"])
    n = op["n"]
    x = {"unit": lambda: rs.rand(n), "ties": lambda: rs.randint(0, max(2, n // 2), size=n) * 0.1, "const": lambda: np.full(n, rs.randn()),
         "empty": lambda: np.zeros(0), "one": lambda: rs.randn(1), "offset": lambda: 1e6 + rs.rand(n), "huge": lambda: rs.randn(n) * 1e12,
         "ints": lambda: rs.randint(-5, 6, size=n), "tiny": lambda: 1.0 + rs.randint(0, 50, size=n) * 2.0 ** -50,
         "mixed": lambda: rs.randn(n) * 10.0 ** rs.randint(-8, 8, size=n), "neg": lambda: -np.sort(rs.rand(n))[::-1],
         "two": lambda: rs.choice([0.25, 0.75], size=n)}[op["k"]]()
    return x


def execute(sc, run):
    proc = seams.Proc("p", None, {}, entropy="c14")
    proc.chance = chance.Chance(sc["steer"])
    with seams.use(proc), core.quiet(), np.errstate(all="ignore"):
        lib = loader.fresh()
        np.random.seed(sc["seed"])
        for k, op in enumerate(sc["ops"]):
            x = vec(op)
            kw = {}
            if "max" in op:
                kw["max_epsilon"] = op["max"]
            if "default" in op:
                kw["default_epsilon"] = min(op["default"], op.get("max", 1.0))
            what = "op %d: epsilon_noise(%s%s)" % (k, np.array2string(x, threshold=12), "".join(", %s=%g" % i for i in sorted(kw.items())))
            if "bad" in op:
                z = np.append(x.astype(float), float(op["bad"]))
                try:
                    lib.util.epsilon_noise(z, **kw)
                except Exception:
                    run.hit("probe/rejected")
                    continue
                raise core.Violation("accepted", "%s accepted %s" % (what, op["bad"]))
            keep = x.copy()
            outs = []
            for _ in range(2 if op["again"] else 1):
                before = proc.chance.steered
                try:
                    out = lib.util.epsilon_noise(x, **kw)
                except Exception as e:
                    raise core.Violation("failed", "%s raised %r" % (what, e))
                steered = proc.chance.steered > before
                run.hit("probe/noise")
                judge(run, op, kw, what, x, out, steered)
                if not np.array_equal(x, keep):
                    raise core.Violation("input-changed", what)
                outs.append((out, steered))
            if op["again"]:
                run.hit("probe/again")
                if len(x) and not any(s for _, s in outs) and np.array_equal(outs[0][0], outs[1][0]):
                    d = float(np.max(np.abs(x))) if len(x) else 0.0
                    if eps(x, kw) > 1e3 * np.spacing(d):
                        raise core.Violation("no-noise", "%s gives the same noise twice" % what)
            run.log(op["k"], x.tolist(), outs[-1][0].tolist())
    for n, c in proc.chance.patterns.items():
        run.hit("fault/draw_" + n, c)
    if proc.chance.steered:
        run.hit("fault/steered_draw", proc.chance.steered)
    run.simtime = proc.elapsed()


def eps(x, kw):
    u = sorted(set(float(v) for v in x))
    gap = min((b - a for a, b in zip(u, u[1:])), default=kw.get("default_epsilon", 1e-10))
    return min(gap, kw.get("max_epsilon", 1.0))


def judge(run, op, kw, what, x, out, steered):
    if not isinstance(out, np.ndarray) or out.shape != x.shape or out.dtype.kind != "f":
        raise core.Violation("shape", "%s gives %r" % (what, out))
    if len(x) == 0:
        run.hit("probe/empty")
        return
    if x.dtype.kind == "i":
        run.hit("probe/integers")
    u = sorted(set(float(v) for v in x))
    if len(u) < len(x):
        run.hit("probe/ties")
    if len(u) == 1:
        run.hit("probe/constant")
    if len(x) > 1:
        run.nontrivial = True
    if len(x) >= 800:
        run.hit("probe/many_values")
    e = eps(x, kw)
    if e == kw.get("max_epsilon", 1.0):
        run.hit("probe/capped")
    ulp = float(np.max(np.spacing(np.abs(x.astype(float)) + e)))
    if e < 1e3 * ulp:
        run.hit("probe/tiny_gap")
    if not np.all(np.isfinite(out)):
        raise core.Violation("not-finite", "%s gives %s" % (what, out))
    if np.max(np.abs(out - x)) > e * (1 + 1e-12) + ulp:
        raise core.Violation("moved", "%s moves a value by %r, gap %r" % (what, float(np.max(np.abs(out - x))), e))
    order = np.argsort(x, kind="stable")
    xs, os_ = x[order], out[order]
    top = -np.inf
    k = 0
    while k < len(xs):  # groups of equal inputs
        j = k
        while j < len(xs) and xs[j] == xs[k]:
            j += 1
        if os_[k:j].min() < top:
            raise core.Violation("order", "%s: a larger input became the smaller output\n%s" % (what, out))
        top = os_[k:j].max()
        k = j
    if not steered and e > 1e8 * ulp * len(x) ** 2:
        run.hit("probe/distinct")
        if len(set(out.tolist())) < len(out):
            raise core.Violation("tied", "%s leaves ties\n%s" % (what, out))
