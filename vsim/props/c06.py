"""C06: a call leaves nothing behind but its result, however it ends."""
import copy
import os

import joblib
import numpy as np
import pandas as pd

from vsim import ambient, core, lines, loader, ops, sched, seams

PID = "C06"
PLAN = {"quick": dict(runs=5000, wall=420, min=400, recheck=64), "thorough": dict(runs=80000, wall=3000, min=4000, recheck=300)}
SHRINK = ("steps", "methods")
RULE = ("Seeded sessions of calls over the whole API from one caller, under a seeded ambient configuration; calls are "
        "interrupted at a numbered line of library code or a numbered party event, fail from an exception or allocation "
        "failure there, or fail from an invalid input. After every call the process-wide state, the inputs and earlier "
        "results are compared, then the call is repeated undisturbed. Non-trivial: a fault fired inside a call. "
        "Distinct by the digest of (call, fault place, outcome).")
REAL = ["the whole mlpaper package (working tree)", "numpy, pandas, scipy, decimal, warnings state of the real process"]
STUBS = ["estimators and metrics (parties with injected exceptions)", "interrupt delivery (raised at a library line)",
         "clock, entropy"]
ASSUMPTIONS = ["an interrupt between acquiring a resource and entering the block that releases it is not delivered (no code "
               "survives that)", "what is in a checkpoint directory is C01 to C03's subject; here its use is to leave no other trace"]
MUST_HIT = ("fault/interrupt_line", "fault/interrupt_party", "fault/exception_party", "fault/alloc_failure",
            "fault/invalid_input", "probe/repeated_after_fault", "probe/ambient_perturbed", "probe/scribbled_output",
            "probe/interrupted_inside_with", "probe/with_checkpoint_directory")


class Cancelled(BaseException):
    pass


AMBIENT = [{}, {}, {"prec": 40}, {"prec": 24, "rounding": "ROUND_DOWN"}, {"rounding": "ROUND_UP"},
           {"np_err": "ignore"}, {"np_err": "warn"}, {"pd": {"display.precision": 2, "display.max_rows": 2}},
           {"pd": {"display.max_columns": 1, "display.width": 20}}, {"warn": "always"}, {"capitals": 0},
           {"rounding": "ROUND_05UP", "np_err": "ignore", "pd": {"display.max_colwidth": 60}}]

BREAKS = ("nan", "short_y", "bad_ref", "empty", "dtype", "swap", "limits")


def generate(rng, i, tier):
    kinds = [k for k in ops.OPS if k != "clf_bench" or rng.random() < 0.25]
    if rng.random() < 0.3:
        kinds = rng.sample(kinds, rng.choice([1, 2, 3]))
    steps = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        o = ops.gen(rng, kinds)
        party = ops.OPS[o["k"]].callbacks
        f = rng.choice(["none", "line", "line", "line", "alloc", "invalid"] + ["party", "party", "exc"] * (2 if party else 0))
        fault = {"kind": f}
        if f in ("line", "alloc"):
            if rng.random() < 0.6:  # any line the call reaches, each as likely
                fault["place"] = rng.randrange(10 ** 6)
            else:
                fault["at"] = rng.choice([rng.randrange(6), rng.randrange(40), rng.randrange(300)])
            fault["exc"] = rng.choice(["KeyboardInterrupt", "Cancelled", "SystemExit"]) if f == "line" else "MemoryError"
        elif f in ("party", "exc"):
            fault["at"] = rng.choice([0, 0, 1, 2, 3, rng.randrange(12)])
            fault["exc"] = rng.choice(["KeyboardInterrupt", "Cancelled", "GeneratorExit"]) if f == "party" else \
                rng.choice(["ValueError", "RuntimeError", "MemoryError", "FloatingPointError", "AssertionError"])
        elif f == "invalid":
            fault["how"] = rng.choice(BREAKS)
        if o["k"] in ("clf_pred", "reg_pred") and rng.random() < 0.4:
            o["ck"] = True
        steps.append({"op": o, "fault": fault})
    return {"steps": steps, "ambient": rng.choice(AMBIENT), "seed": rng.randrange(2 ** 31)}


EXC = {"KeyboardInterrupt": KeyboardInterrupt, "Cancelled": Cancelled, "SystemExit": SystemExit, "GeneratorExit": GeneratorExit,
       "MemoryError": MemoryError, "ValueError": ValueError, "RuntimeError": RuntimeError,
       "FloatingPointError": FloatingPointError, "AssertionError": AssertionError}
INTR = ("KeyboardInterrupt", "Cancelled", "SystemExit", "GeneratorExit")


def plain(a):
    """The inputs without the estimators, which fit() changes."""
    return {k: (v if k != "methods" else list(v)) for k, v in a.items()}


def spoil(a, how):
    """Make the inputs invalid in some way; returns what was done, or None."""
    for k, v in list(a.items()):
        if how == "nan" and isinstance(v, pd.DataFrame) and len(v) and all(d.kind == "f" for d in v.dtypes):
            v.iloc[-1, -1] = np.nan
            return k
        if how == "nan" and isinstance(v, np.ndarray) and v.dtype.kind == "f" and v.size:
            v.flat[-1] = np.nan
            return k
        if how == "short_y" and k in ("y", "yt", "r", "v") and isinstance(v, np.ndarray):
            a[k] = v[:-1]
            return k
        if how == "bad_ref" and k == "ref":
            a[k] = "no such method"
            return k
        if how == "empty" and isinstance(v, (pd.DataFrame, np.ndarray)) and len(v):
            a[k] = v[:0]
            return k
        if how == "dtype" and isinstance(v, np.ndarray):
            a[k] = v.astype(complex)
            return k
        if how == "limits" and k == "limits" and v:
            for m in v:
                v[m] = (5.0, 6.0)
            return k
        if how == "swap" and isinstance(v, pd.DataFrame) and v.columns.nlevels == 2:
            a[k] = v.swaplevel(axis=1)
            return k
    return None


def scribble(r):
    """Overwrite whatever arrays a result holds."""
    n = 0
    if isinstance(r, pd.DataFrame):
        for j in range(r.shape[1]):
            v = r.iloc[:, j].values
            n += scribble(v)
        if r.size:
            try:
                r.iloc[0, 0] = r.iloc[-1, -1]
            except Exception:
                pass
        return n
    if isinstance(r, np.ndarray):
        if r.size and r.flags.writeable:
            if r.dtype.kind in "fiu":
                r[...] = 77
            elif r.dtype.kind == "b":
                r[...] = ~r
            elif r.dtype.kind == "O":
                r[...] = "scribble"
            else:
                return 0
            return 1
        return 0
    if isinstance(r, dict):
        n = sum(scribble(v) for v in r.values())
        r.clear()
        return n
    if isinstance(r, list):
        n = sum(scribble(v) for v in r)
        del r[:]
        return n
    if isinstance(r, tuple):
        return sum(scribble(v) for v in r)
    return 0


def solo(o, seed, places=False):
    """What the call gives undisturbed in a fresh process, and when it first reaches each line."""
    proc = seams.Proc("solo", None, {}, entropy=3)
    rec = lines.Recorder()
    with seams.use(proc), core.quiet() as out:
        lib = loader.fresh()
        np.random.seed(seed)
        a = ops.build(o)
        if places:
            proc.line_hook = rec
            sched.monitor("line")
        try:
            r = ("ok", ambient.fp(ops.call(lib, o, a)))
        except Exception as e:
            r = ("error", type(e).__name__)
        finally:
            proc.line_hook = None
            sched.monitor(None)
    return r + (out.getvalue(), rec.first)


def execute(sc, run):
    want = [solo(s["op"], sc["seed"], "place" in s["fault"]) for s in sc["steps"]]
    ambient.reset()
    disk = None
    if any(s["op"].get("ck") for s in sc["steps"]):
        disk = seams.Disk(core.scratch_dir())
        run.hit("probe/with_checkpoint_directory")
    held = ambient.resources()
    cwd = core.scratch_dir()
    os.chdir(cwd)
    proc = seams.Proc("main", disk, {}, entropy=5)
    with seams.use(proc):
        lib = loader.fresh()
        getattr(joblib.memory, "_FUNCTION_HASHES", {}).clear()  # a fresh process (see hist.call)
        ambient.perturb(sc["ambient"])
        if sc["ambient"]:
            run.hit("probe/ambient_perturbed")
        kept = []
        for k, s in enumerate(sc["steps"]):
            o, fault = s["op"], s["fault"]
            if o.get("ck"):
                o = dict(o, ckpt=os.path.join(disk.root, "ckpt"))
            where = "step %d (%s, fault %s)" % (k, o["k"], fault)
            np.random.seed(sc["seed"])
            a = ops.build(o)
            spoiled = spoil(a, fault["how"]) if fault["kind"] == "invalid" else None
            pin = ambient.fp_in(plain(a))
            objs = dict(a.get("methods", {}))
            before = None
            inj = None
            count = [0]
            fired = []
            if fault["kind"] in ("line", "alloc"):
                at = fault.get("at", 0)
                if "place" in fault and want[k][3]:
                    at = want[k][3][fault["place"] % len(want[k][3])]
                inj = lines.Injector(at, EXC[fault["exc"]])
                proc.line_hook = inj
                sched.monitor("line")
            elif fault["kind"] in ("party", "exc"):
                def party(what, who):
                    if count[0] == fault["at"]:
                        fired.append(what)
                        count[0] += 1
                        raise EXC[fault["exc"]]("injected")
                    count[0] += 1
                proc.party = party
            err, r, text = None, None, ""
            try:
                with core.quiet():
                    before = ambient.snapshot(lib)
                    try:
                        r = ops.call(lib, o, a)
                    finally:
                        proc.party = proc.line_hook = None
                        sched.monitor(None)
                        after = ambient.snapshot(lib)
            except core.Hang:
                raise
            except BaseException as e:
                err = e
            if inj is not None and inj.at:
                fired.append(inj.at)
            run.log(k, o["k"], o["s"], fault["kind"], fired, type(err).__name__)
            if fired:
                run.nontrivial = True
                run.hit({"line": "fault/interrupt_line", "alloc": "fault/alloc_failure", "party": "fault/interrupt_party",
                         "exc": "fault/exception_party"}[fault["kind"]])
                if inj is not None and fault["kind"] == "line" and _in_with(inj.at):
                    run.hit("probe/interrupted_inside_with")
            elif spoiled:
                run.hit("fault/invalid_input")
                run.nontrivial = True
            # state
            ignore = ("np.random",) if ops.is_random(o) else ()
            d = ambient.diff(before, after, ignore)
            if d:
                raise core.Violation("state-leak", "%s at %s: %s changed, outcome %s\nbefore %s\nafter %s" % (
                    where, fired, ", ".join(d), type(err).__name__, str(before[d[0]])[:300], str(after[d[0]])[:300]))
            if ambient.fp_in(plain(a)) != pin:
                raise core.Violation("input-modified", "%s: the caller's inputs were modified, outcome %s" % (
                    where, type(err).__name__))
            if any(a["methods"][m] is not objs[m] for m in objs):
                raise core.Violation("input-modified", "%s: estimators replaced" % where)
            # outcome
            if fired and fault["exc"] in INTR:
                if err is None:
                    raise core.Violation("interrupt-swallowed", "%s at %s: the call returned" % (where, fired))
                if not isinstance(err, EXC[fault["exc"]]):
                    raise core.Violation("interrupt-swallowed", "%s at %s came out as %r" % (where, fired, err))
            if err is None and not spoiled:
                got = ambient.fp(r)
                if want[k][0] != "ok":
                    raise core.Violation("outcome-differs", "%s: returns, but alone it raises %s" % (where, want[k][1]))
                if got != want[k][1] and not (fired and fault["kind"] == "exc" and fired[0] == "predict_log_proba"):
                    raise core.Violation("result-differs", "%s: not the result the call gives undisturbed, in a fresh process\n"
                                         "%s\n%s" % ((where,) + _where(got, want[k][1])))
            elif err is not None and not fired and not spoiled and want[k][0] == "ok":
                raise core.Violation("outcome-differs", "%s: %r, but alone it returns" % (where, err))
            # results are the caller's own: writing to them changes no input, and the other way round
            if err is None:
                kept.append((k, r, ambient.fp(r)))
                for v in plain(a).values():
                    scribble(v) if isinstance(v, (np.ndarray, pd.DataFrame)) else None
                for kk, rr, ff in kept:
                    if ambient.fp(rr) != ff:
                        raise core.Violation("result-aliased", "%s: writing to its inputs changed the result of step %d" % (
                            where, kk))
                a2 = ops.build(o)
                pin2 = ambient.fp(plain(a2))
                np.random.seed(sc["seed"])
                if not spoiled:
                    with core.quiet():
                        r2 = ops.call(lib, o, a2)
                    f2 = ambient.fp(r2)
                    if f2 != want[k][1]:
                        raise core.Violation("later-call-differs", "%s: the same call made again differs\n%s\n%s" % (
                            (where,) + _where(f2, want[k][1])))
                    if scribble(r2):
                        run.hit("probe/scribbled_output")
                    if ambient.fp(plain(a2)) != pin2:
                        raise core.Violation("result-aliased", "%s: writing to the result changed the call's inputs" % where)
                    for kk, rr, ff in kept:
                        if ambient.fp(rr) != ff:
                            raise core.Violation("result-aliased", "%s: writing to its result changed the result of step %d" % (
                                where, kk))
                    a3 = ops.build(o)
                    np.random.seed(sc["seed"])
                    with core.quiet():
                        f3 = ambient.fp(ops.call(lib, o, a3))
                    if f3 != want[k][1]:
                        raise core.Violation("later-call-differs", "%s: after the caller wrote to the result of the call, the "
                                             "same call differs\n%s\n%s" % ((where,) + _where(f3, want[k][1])))
            elif want[k][0] == "ok":
                np.random.seed(sc["seed"])
                a2 = ops.build(o)
                try:
                    with core.quiet():
                        f2 = ambient.fp(ops.call(lib, o, a2))
                except Exception as e:
                    raise core.Violation("later-call-differs", "%s at %s: repeated undisturbed it raises %r" % (where, fired, e))
                run.hit("probe/repeated_after_fault")
                if f2 != want[k][1]:
                    raise core.Violation("later-call-differs", "%s at %s: repeated undisturbed it differs\n%s\n%s" % (
                        (where, fired) + _where(f2, want[k][1])))
    run.simtime = proc.elapsed()
    kept = a = err = r = None
    d = ambient.diff(held, ambient.resources())
    if d:
        raise core.Violation("resource-leak", "after the session: %s changed\nbefore %s\nafter %s" % (
            ", ".join(d), held, ambient.resources()))


_with = None


def _in_with(at):
    """Whether the line is inside a with body (reach only)."""
    global _with
    if _with is None:
        import ast

        _with = set()
        for path in loader.package_files():
            with open(path, encoding="utf-8") as f:
                for node in ast.walk(ast.parse(f.read())):
                    if isinstance(node, ast.FunctionDef):
                        for n in ast.walk(node):
                            if isinstance(n, ast.With):
                                _with |= {(node.name, ln) for ln in range(n.body[0].lineno, n.body[-1].end_lineno + 1)}
    return tuple(at) in _with


def _where(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return _where(x, y)
    return repr(a)[:300], repr(b)[:300]
