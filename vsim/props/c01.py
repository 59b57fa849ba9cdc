"""C01: a checkpoint directory never changes the answer."""
import os

import numpy as np

from vsim import core, hist, loader, parties, sched, seams

PID = "C01"
PLAN = {"quick": dict(runs=5000, wall=420, min=400, recheck=64), "thorough": dict(runs=60000, wall=3000, min=4000, recheck=400)}
SHRINK = ("phases", "lives", "ops", "methods", "plan", "mut", "gaps", "picks")
RULE = ("Seeded histories of phases; a phase is one or several simulated processes making train/test calls with and "
        "without checkpoint directories, each with its own fault plan over its numbered file operations. A run is "
        "non-trivial when at least one answer was served from a checkpoint or at least one fault fired; distinct by "
        "the digest of (file operation log, faults fired, fits made, schedule).")
REAL = ["mlpaper classification.get_pred_log_prob, regression.get_gauss_pred (working tree)", "joblib.Memory",
        "numpy pickling", "the bytes on disk (tmpfs)"]
STUBS = ["estimators (digest-seeded parties)", "process boundary (fresh module instances, SimCrash unwinding)",
         "file-operation fault layer", "clock", "uuid and OS entropy"]
ASSUMPTIONS = ["no silent corruption in the middle of a file that was completely written",
               "estimators are deterministic functions of parameters and data", "joblib version as installed"]
MUST_HIT = ("probe/served_from_checkpoint", "fault/crash", "fault/torn_write", "fault/disk_full", "fault/short_write",
            "fault/io_error_read", "fault/io_error_write", "fault/interrupt", "probe/concurrent_phase", "probe/recomputed_after_fault")


def gen_plan(rng, mode):
    plan = {}
    if mode == "none":
        return plan
    n = rng.choice([1, 1, 1, 2, 3])
    for _ in range(n):
        at = int(rng.choice([rng.randrange(0, 12), rng.randrange(0, 40), rng.randrange(0, 90)]))
        kinds = {"crash": ["crash"], "io": ["full", "eio", "short", "clock", "intr"],
                 "all": ["crash", "crash", "full", "eio", "short", "clock", "intr"]}[mode]
        k = rng.choice(kinds)
        f = {"kind": k}
        if k in ("crash", "full", "short"):
            f["frac"] = rng.choice([0.0, 0.1, 0.5, 0.9, 1.0])
        if k == "full":
            f["ops"] = rng.choice([1, 3, 10, 40])
        if k == "clock":
            f["dt"] = rng.choice([-1e6, -3600.0, 3600.0, 1e7, -1e9])
        plan[str(at)] = f
    return plan


def generate(rng, i, tier):
    mode = rng.choice(["none", "none", "crash", "crash", "io", "all", "all"])
    power = mode in ("crash", "all") and rng.random() < 0.3
    base = [hist.gen_op(rng)]
    if rng.random() < 0.5:
        base.append(hist.gen_op(rng, rng.choice(["clf", "reg"])))
    pool = list(base)
    phases = []
    for p in range(rng.choice([2, 3, 3, 4, 5])):
        nl = rng.choice([1, 1, 1, 1, 2, 2, 3])
        lives = []
        for l in range(nl):
            ops = []
            for o in range(rng.choice([1, 1, 2, 3])):
                if rng.random() < 0.4:
                    op = rng.choice(pool)
                else:
                    op, _ = hist.variant(rng, rng.choice(pool))
                    pool.append(op)
                op = dict(op)
                op["dir"] = rng.choice([0, 0, 0, 0, 0, 1, None])
                op["again"] = rng.random() < 0.2
                op["verbose"] = rng.random() < 0.1
                ops.append(op)
            lives.append({"ops": ops, "plan": gen_plan(rng, mode) if rng.random() < 0.6 else {},
                          "entropy": rng.randrange(10 ** 6), "bufsize": rng.choice([0, 0, 64, 512]), "edit": rng.random() < 0.3})
        ph = {"lives": lives, "gaps": [], "picks": []}
        if nl > 1:
            ph["gaps"] = [rng.choice([0, 0, 1, 2, 3, 5, 8, 13]) for _ in range(rng.choice([5, 20, 60]))]
            ph["picks"] = [rng.randrange(3) for _ in range(len(ph["gaps"]) + 4)]
            if rng.random() < 0.6:  # the same work at the same time, where they can meet
                for lf in lives[1:]:
                    lf["ops"] = [dict(o) for o in lives[0]["ops"]]
        if power and rng.random() < 0.5:
            ph["power"] = rng.randrange(10 ** 6)
        phases.append(ph)
    return {"phases": phases}


def edited(bufs, key, a):
    old = bufs.get(key)
    if old is not None and (old.shape, old.dtype, old.strides) == (a.shape, a.dtype, a.strides) and old.flags.writeable:
        old[...] = a
        return old
    bufs[key] = a
    return a


def one_life(lib, life, disk, proc, out):
    """All operations of one simulated process; results and errors go to out."""
    store, bufs = {}, {}
    for op in life["ops"]:
        n_fit = sum(1 for e in proc.log if e[0] == "fit")
        objs = None
        if op.get("again"):  # the estimators of earlier calls, whatever they were fitted to
            objs = {m["name"]: store.setdefault(parties.ident(m["kind"], m["params"]), parties.make(m)) for m in op["methods"]}
        data = None
        if life.get("edit"):  # the very same arrays and estimators as before, with other contents
            data = [edited(bufs, j, a) for j, a in enumerate(hist.build_data(op))]
            objs = {}
            for j, m in enumerate(op["methods"]):
                objs[m["name"]] = bufs.setdefault((m["kind"], j), parties.make(m))
                objs[m["name"]].params = dict(m["params"])
        try:
            tbl = hist.call(lib, op, disk, objs=objs, data=data)
        except seams.SimCrash:
            out.append((op, "crash", None, 0))
            return
        except (Exception, KeyboardInterrupt) as e:
            out.append((op, "error", e, 0))
            continue
        if proc.dead:
            out.append((op, "crash", None, 0))
            return
        out.append((op, "ok", tbl, sum(1 for e in proc.log if e[0] == "fit") - n_fit))


def run_phase(ph, disk, run, pno):
    procs, outs, sch = [], [], sched.Sched(ph["gaps"], ph["picks"])
    for k, life in enumerate(ph["lives"]):
        proc = seams.Proc("p%d.%d" % (pno, k), disk, {int(a): b for a, b in life["plan"].items()},
                          entropy=life["entropy"], clock=1e9 + 1000 * pno, bufsize=life["bufsize"])
        procs.append(proc)
        outs.append([])
    if len(procs) == 1:
        with seams.use(procs[0]):
            one_life(loader.fresh(), ph["lives"][0], disk, procs[0], outs[0])
    elif procs:
        libs = [loader.fresh() for _ in procs]
        for k, proc in enumerate(procs):
            sch.add(proc, lambda k=k, proc=proc: one_life(libs[k], ph["lives"][k], disk, proc, outs[k]))
        sch.run()
        for t in sch.tasks:
            if t.error is not None:
                raise t.error
        if sch.switches:
            run.hit("probe/concurrent_phase")
            run.hit("switches", sch.switches)
    return procs, outs, sch


def execute(sc, run):
    with core.quiet():
        history(sc, run)


def history(sc, run):
    disk = seams.Disk(core.scratch_dir())
    os.chdir(disk.root)
    any_fault = False
    served = 0
    ops_seen = []
    for pno, ph in enumerate(sc["phases"]):
        procs, outs, sch = run_phase(ph, disk, run, pno)
        concurrent = len(procs) > 1
        phase_fault = any(p.fired for p in procs)
        for proc, life, out in zip(procs, ph["lives"], outs):
            run.simtime += proc.elapsed()
            faulty = bool([f for f in proc.fired if f[0] != "clock"])
            for op, how, val, fits in out:
                ops_seen.append(op)
                run.log(pno, proc.name, op["dir"], how, fits)
                if how == "ok":
                    hist.check_table(val, op, "phase %d %s dir=%s" % (pno, proc.name, op["dir"]))
                    if op["dir"] is not None and fits < len(op["methods"]):
                        served += 1
                        run.hit("probe/served_from_checkpoint")
                    if op["dir"] is None and fits != len(op["methods"]):
                        raise core.Violation("reused-without-directory", "%d fits for %d methods with no checkpoint "
                                             "directory" % (fits, len(op["methods"])))
                elif how == "error" and disk.record_torn() and op["dir"] is not None:
                    run.hit("probe/failed_on_torn_record")
                elif how == "error" and not (faulty and op["dir"] is not None):
                    raise core.Violation("spurious-failure", "phase %d %s dir=%s: %s" % (
                        pno, proc.name, op["dir"], hist.exc_text(val)))
                elif how == "error":
                    run.hit("probe/failed_under_fault")
            for f in proc.fired:
                run.log("fault", f)
            run.log(tuple(proc.log))
        any_fault = any_fault or phase_fault
        run.log(tuple(sch.trace))
        if "power" in ph:
            import random

            disk.power_loss(random.Random("power/%s" % ph["power"]))
            run.hit("fault/power_loss")
    # The faults have stopped: everything asked for so far is served again, and right.
    proc = seams.Proc("recovery", disk, {}, entropy="r", clock=2e9)
    with seams.use(proc):
        lib = loader.fresh()
        seen = set()
        for op in ops_seen:
            if repr(op) in seen or len(seen) >= 6:
                continue
            seen.add(repr(op))
            n0 = sum(1 for e in proc.log if e[0] == "fit")
            try:
                tbl = hist.call(lib, op, disk)
            except Exception as e:
                if disk.record_torn() and op["dir"] is not None:
                    run.hit("probe/failed_on_torn_record")
                    continue
                raise core.Violation("no-recovery", "after the faults stopped dir=%s: %s" % (op["dir"], hist.exc_text(e)))
            hist.check_table(tbl, op, "recovery dir=%s" % op["dir"])
            fits = sum(1 for e in proc.log if e[0] == "fit") - n0
            if any_fault and fits and op["dir"] is not None:
                run.hit("probe/recomputed_after_fault")
            run.log("recovered", op["dir"], fits)
    for k, v in disk.fault_count.items():
        run.hit("fault/" + k, v)
    run.hit("file_operations", len(disk.log))
    run.log(tuple(disk.log))
    run.nontrivial = bool(served or any_fault)
    run.hit("probe/recovery")
