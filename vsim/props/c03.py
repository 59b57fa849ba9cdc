"""C03: a failed or interrupted train/test never counts as done."""
import os

import numpy as np

from vsim import core, hist, loader, parties, seams

PID = "C03"
PLAN = {"quick": dict(runs=6000, wall=420, min=400, recheck=64), "thorough": dict(runs=60000, wall=3000, min=4000, recheck=400)}
SHRINK = ("phases", "ops", "methods", "faults", "mut")
RULE = ("Seeded sequences of train/test calls in which a chosen estimator raises a chosen exception or interrupt at a "
        "chosen call (start of fit, end of fit, predict_log_proba, predict_proba, predict), followed by retries with the "
        "same or fresh objects in the same or a new process. Non-trivial: a fault fired. Distinct by the digest of the "
        "party event log.")
REAL = ["mlpaper classification.get_pred_log_prob, just_benchmark, regression.get_gauss_pred, just_benchmark (working "
        "tree)", "joblib.Memory", "the bytes on disk (tmpfs)"]
STUBS = ["estimators (digest-seeded parties with injected exceptions)", "process boundary", "clock, uuid, OS entropy"]
ASSUMPTIONS = ["an ordinary exception from predict_log_proba means the method has no log probabilities, and "
               "predict_proba is used instead (documented fallback)",
               "a TypeError from predict(return_std=True) means the method has no standard deviations"]
MUST_HIT = ("fault/interrupt", "fault/exception", "probe/retried_ok", "probe/fallback_after_exception",
            "probe/earlier_methods_kept", "probe/same_objects_retry", "fault/transient")


class Abort(BaseException):
    """A caller's own cancellation (like trio.Cancelled, greenlet.GreenletExit)."""


INTERRUPTS = {"KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "GeneratorExit": GeneratorExit,
              "Abort": Abort}
EXCEPTIONS = {"ValueError": ValueError, "RuntimeError": RuntimeError, "MemoryError": MemoryError, "OSError": OSError,
              "AssertionError": AssertionError, "KeyError": KeyError, "ZeroDivisionError": ZeroDivisionError,
              "FloatingPointError": FloatingPointError, "NotImplementedError": NotImplementedError,
              "AttributeError": AttributeError, "TypeError": TypeError, "LinAlgError": np.linalg.LinAlgError,
              "StopIteration": StopIteration, "UserWarning": UserWarning, "EOFError": EOFError,
              "ConvergenceError": type("ConvergenceError", (Exception,), {})}


def gen_fault(rng, op):
    k = rng.randrange(len(op["methods"]))
    if op["task"] == "clf":
        ev = rng.choice(["fit", "fit_end", "predict_log_proba", "predict_log_proba", "predict_proba"])
    else:
        ev = rng.choice(["fit", "fit_end", "predict", "predict"])
    exc = rng.choice(sorted(INTERRUPTS) * 3 + sorted(EXCEPTIONS))
    if ev == "predict" and exc == "TypeError" and op["methods"][k]["kind"] == "RegStd":
        exc = "ValueError"
    # once: only the first such call fails, a second attempt within the operation would succeed
    return {"method": k, "event": ev, "exc": exc, "once": rng.random() < 0.5}


def generate(rng, i, tier):
    op = hist.gen_op(rng)
    if op["data"]["ntr"] + op["data"]["nte"] > 50:
        op["data"].update(ntr=5, nte=3)
    op["methods"] = hist.gen_methods(rng, op["task"], op["n_labels"], rng.choice([1, 2, 3, 4]))
    op["dir"] = rng.choice([0, 0, 0, 0, None])
    phases = []
    for p in range(rng.choice([1, 2, 3])):
        ops = []
        for o in range(rng.choice([1, 2, 3])):
            cur = dict(op)
            if rng.random() < 0.3:
                cur, _ = hist.variant(rng, op)
                cur["dir"] = op["dir"]
                op = cur
            cur = dict(cur)
            cur["faults"] = [gen_fault(rng, cur)] if rng.random() < 0.75 else []
            if cur["faults"] and rng.random() < 0.15:
                cur["faults"].append(gen_fault(rng, cur))
            cur["objs"] = rng.choice(["fresh", "fresh", "same"])
            cur["entry"] = rng.choice(["table"] * 4 + ["bench"]) if cur["dir"] is None else "table"
            ops.append(cur)
        phases.append({"ops": ops, "entropy": rng.randrange(10 ** 6)})
    return {"phases": phases}


def outcome(op):
    """What must happen: 'raise', or 'return' with the fallback used; None when nothing would fire."""
    res = "return"
    for f in op["faults"]:
        if f["method"] >= len(op["methods"]):
            continue
        kind = op["methods"][f["method"]]["kind"]
        ev, exc = f["event"], f["exc"]
        intr = exc in INTERRUPTS
        if ev in ("fit", "fit_end"):
            res = "raise"
        elif ev == "predict_log_proba":
            if kind == "ClfBare":
                continue
            if intr or kind == "ClfLog":
                res = "raise"
        elif ev == "predict_proba":
            if kind in ("ClfProba", "ClfBare"):
                res = "raise"
        elif ev == "predict":
            res = "raise"
    return res


def bench(lib, op, objs):
    X, y, Xt = hist.build_data(op)
    methods = {m["name"]: objs[m["name"]] for m in op["methods"]}
    ref = op["methods"][0]["name"]
    if op["task"] == "clf":
        yt = np.resize(y, len(Xt))
        fl = hist.floor_of(op)
        if op["n_labels"] != 2:
            return None
        return lib.classification.just_benchmark(X, y, Xt, yt, op["n_labels"], methods, {"zero_one": lib.classification.hard_loss},
                                                 {"AUC": lib.perf_curves.roc_curve}, ref, min_pred_log_prob=max(fl, -1e3))
    return lib.regression.just_benchmark(X, y, Xt, np.resize(y, len(Xt)), methods, {"MSE": lib.regression.square_loss}, ref,
                                         min_std=hist.floor_of(op))


def execute(sc, run):
    disk = seams.Disk(core.scratch_dir())
    os.chdir(disk.root)
    work = hist.Work()
    failed_before = False
    last = None
    for pno, ph in enumerate(sc["phases"] + [{"ops": [], "entropy": 0, "final": True}]):
        if ph.get("final"):
            if last is None:
                break
            ph = {"ops": [dict(last, faults=[], objs="fresh", entry="table")], "entropy": 0}
        proc = seams.Proc("p%d" % pno, disk, {}, entropy=ph["entropy"], clock=1e9 + pno)
        with seams.use(proc):
            lib = loader.fresh()
            store = {}
            for op in ph["ops"]:
                last = op
                idents = [parties.ident(m["kind"], m["params"]) for m in op["methods"]]
                objs = {}
                for m, idn in zip(op["methods"], idents):
                    prev = store.get(idn)
                    if op["objs"] == "same" and prev is not None and not any(prev is o for o in objs.values()):
                        objs[m["name"]] = prev
                        run.hit("probe/same_objects_retry")
                    else:
                        objs[m["name"]] = parties.make(m)
                    store[idn] = objs[m["name"]]
                fresh_objs = not any(hasattr(o, "X_") for o in objs.values())
                fired = []

                def party(what, who, op=op, objs=objs, fired=fired):
                    for f in op["faults"]:
                        if f["method"] < len(op["methods"]) and what == f["event"] and \
                                who is objs_at(objs, op, f["method"]) and \
                                not (f.get("once") and any(g is f for g, _ in fired)):
                            e = (INTERRUPTS.get(f["exc"]) or EXCEPTIONS[f["exc"]])("injected")
                            fired.append((f, e))
                            raise e

                proc.party = party
                start = len(proc.log)
                data = hist.build_data(op)
                did = hist.data_id(data)
                got, err = None, None
                try:
                    if op["entry"] == "bench":
                        got = bench(lib, op, objs)
                    else:
                        got = hist.call(lib, op, disk, objs=objs, data=data)
                except BaseException as e:
                    err = e
                finally:
                    proc.party = None
                if isinstance(err, (core.Hang, core.Violation)):
                    raise err
                events = proc.log[start:]
                run.log(pno, op["dir"], tuple(events), [f[0]["exc"] for f in fired], type(err).__name__)
                where = "phase %d dir=%s" % (pno, op["dir"])
                for f, e in fired:
                    run.nontrivial = True
                    run.hit("fault/interrupt" if f["exc"] in INTERRUPTS else "fault/exception")
                    run.hit("fault_at/" + f["event"])
                    if f.get("once"):
                        run.hit("fault/transient")
                # The last fault that fired decides: an earlier one can only have been a fallback's
                fatal = None
                for f, e in fired:
                    kind = op["methods"][f["method"]]["kind"]
                    fallback = (f["event"] == "predict_log_proba" and f["exc"] in EXCEPTIONS and kind in ("ClfProba", "ClfBoth"))
                    if not fallback:
                        fatal = (f, e)
                        break
                if fatal is not None:
                    f, e = fatal
                    if err is None:
                        raise core.Violation("failure-swallowed", "%s: %s in %s of method %r and the call returned" % (
                            where, f["exc"], f["event"], op["methods"][f["method"]]["name"]))
                    if f["exc"] in INTERRUPTS and not isinstance(err, INTERRUPTS[f["exc"]]):
                        raise core.Violation("interrupt-swallowed", "%s: %s in %s came out as %s" % (
                            where, f["exc"], f["event"], hist.exc_text(err)))
                    # without predict_proba the fallback can only end with an AttributeError
                    no_fallback = (f["event"] == "predict_log_proba" and f["exc"] in EXCEPTIONS
                                   and isinstance(err, AttributeError))
                    if not no_fallback and not in_chain(e, err):
                        raise core.Violation("other-error", "%s: %s in %s came out as %s, and nothing says so" % (
                            where, f["exc"], f["event"], hist.exc_text(err)))
                    failed_before = True
                elif err is not None:
                    raise core.Violation("spurious-failure", "%s: %s" % (where, hist.exc_text(err)))
                elif fired:
                    run.hit("probe/fallback_after_exception")
                if op["entry"] == "bench":
                    continue
                if err is None:
                    hist.check_table(got, op, where)
                    if failed_before:
                        run.hit("probe/retried_ok")
                if op["dir"] is not None and fresh_objs:
                    rep = work.account(op, events, did, err is None)
                    if rep:
                        raise core.Violation("repeated-work", "%s: method %s, finished before the failure of another, was "
                                             "fitted again" % (where, rep[0][2]))
                    if failed_before and err is None:
                        run.hit("probe/earlier_methods_kept")
        run.simtime += proc.elapsed()
    run.log(tuple(disk.log))


def in_chain(e, err):
    """Whether err is e, or was raised from or while handling it and shows it."""
    seen = set()
    while err is not None and id(err) not in seen:
        seen.add(id(err))
        if err is e or (type(err) is type(e) and err.args == e.args):
            return True
        err = err.__cause__ if err.__cause__ is not None or err.__suppress_context__ else err.__context__
    return False


def objs_at(objs, op, k):
    return objs[op["methods"][k]["name"]]
