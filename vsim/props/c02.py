"""C02: finished train/test work is never repeated."""
import os

from vsim import core, hist, loader, parties, sched, seams

PID = "C02"
PLAN = {"quick": dict(runs=5000, wall=420, min=400, recheck=64), "thorough": dict(runs=60000, wall=3000, min=4000, recheck=400)}
SHRINK = ("phases", "ops", "methods", "plan", "mut")
RULE = ("Seeded histories of one process after another on shared checkpoint directories, each killed at a numbered file "
        "operation or running to its end, with methods renamed, reordered, added, dropped and floors changed in "
        "between. Non-trivial: at least one method had finished work to reuse. Distinct by the digest of (fits, "
        "predicts, crashes, file operations).")
REAL = ["mlpaper classification.get_pred_log_prob, regression.get_gauss_pred (working tree)", "joblib.Memory",
        "the bytes on disk (tmpfs)"]
STUBS = ["estimators (digest-seeded parties)", "process boundary (fresh module instances, SimCrash unwinding)", "clock",
         "uuid and OS entropy"]
ASSUMPTIONS = ["the crash is of the process, so what it wrote survives", "the same estimator means equal pickled state",
               "the library's code does not change between the runs"]
MUST_HIT = ("probe/reused_finished_work", "fault/crash", "probe/resumed_after_crash", "fault/clock_jump",
            "probe/no_directory", "probe/many_items")


def bulk(rng):
    """A long project: hundreds of finished items in one directory, then all of them once more."""
    phases = []
    op = hist.gen_op(rng)
    op["data"].update(ntr=3, nte=2)
    k = rng.choice([70, 110, 140])
    op["methods"] = [dict(hist.gen_method(rng, op["task"], op["n_labels"]), name="m%d" % j) for j in range(k)]
    for j, m in enumerate(op["methods"]):
        m["params"]["a"] = j
    second = hist.mutate_op(rng, op)
    for o in rng.choice([[op, second, op], [op, op], [op, second, op, second]]):
        o = dict(o, methods=rng.sample(o["methods"], k) if rng.random() < 0.5 else o["methods"])
        phases.append({"ops": [o], "plan": {}, "entropy": rng.randrange(10 ** 6), "clock": 1e9 + 1e5 * len(phases)})
    if rng.random() < 0.5:
        phases[0]["plan"] = {str(rng.randrange(100, 900)): {"kind": "crash", "frac": rng.choice([0.0, 0.5, 1.0])}}
    return {"phases": phases}


def generate(rng, i, tier):
    if i % 80 == 41:
        return bulk(rng)
    base = [hist.gen_op(rng)]
    if len(base[0]["methods"]) < 2 and rng.random() < 0.7:
        base[0]["methods"] = hist.gen_methods(rng, base[0]["task"], base[0]["n_labels"], rng.choice([2, 3, 4]))
    if rng.random() < 0.3:
        base.append(hist.gen_op(rng))
    pool = list(base)
    phases = []
    crashy = rng.random() < 0.75
    for p in range(rng.choice([2, 3, 4, 6])):
        ops = []
        for o in range(rng.choice([1, 1, 2])):
            if rng.random() < 0.5:
                op = rng.choice(pool)
            else:
                op, _ = hist.variant(rng, rng.choice(pool))
                pool.append(op)
            op = dict(op)
            op["dir"] = rng.choice([0, 0, 0, 0, 0, 0, 1, None])
            op["verbose"] = rng.random() < 0.1
            ops.append(op)
        plan = {}
        if crashy and rng.random() < 0.6:
            plan[str(rng.choice([rng.randrange(0, 20), rng.randrange(0, 40), rng.randrange(0, 100)]))] = {
                "kind": "crash", "frac": rng.choice([0.0, 0.3, 0.7, 1.0])}
        if rng.random() < 0.25:
            plan[str(rng.randrange(0, 40))] = {"kind": "clock", "dt": rng.choice([-1e6, 1e6, 1e9, -1e8])}
        phases.append({"ops": ops, "plan": plan, "entropy": rng.randrange(10 ** 6), "clock": rng.choice([1e9, 1.1e9, 9e8])})
    return {"phases": phases}


def tree(root):
    out = []
    for d, dirs, files in os.walk(root):
        out += [os.path.join(d, f) for f in files + dirs]
    return sorted(out)


def execute(sc, run):
    disk = seams.Disk(core.scratch_dir())
    cwd = os.path.join(disk.root, "cwd")
    os.mkdir(cwd)
    os.chdir(cwd)
    work = hist.Work()
    crashed = False
    for pno, ph in enumerate(sc["phases"]):
        proc = seams.Proc("p%d" % pno, disk, {int(a): b for a, b in ph["plan"].items()}, entropy=ph["entropy"],
                          clock=ph["clock"])
        with seams.use(proc):
            lib = loader.fresh()
            for op in ph["ops"]:
                data = hist.build_data(op)
                did = hist.data_id(data)
                start, n_ops = len(proc.log), len(disk.log)
                before = tree(disk.root) if op["dir"] is None else None
                had = set(work.done)
                ok = False
                try:
                    with core.quiet():
                        tbl = hist.call(lib, op, disk, data=data)
                    ok = not proc.dead
                except seams.SimCrash:
                    crashed = True
                except Exception as e:
                    raise core.Violation("spurious-failure", "phase %d dir=%s: %s" % (pno, op["dir"], hist.exc_text(e)))
                events = proc.log[start:]
                run.log(pno, op["dir"], ok, tuple(events))
                if op["dir"] is None:
                    run.hit("probe/no_directory")
                    n = len([e for e in events if e[0] == "fit"])
                    if ok and n != len(op["methods"]):
                        raise core.Violation("reused-without-directory", "%d fits for %d methods" % (n, len(op["methods"])))
                    if len(disk.log) != n_ops or tree(disk.root) != before:
                        raise core.Violation("wrote-without-directory", "file operations with no checkpoint directory: %r"
                                             % (disk.log[n_ops:][:5],))
                else:
                    rep = work.account(op, events, did, ok)
                    if rep:
                        raise core.Violation("repeated-work", "phase %d: method %s was fitted again on the same data in "
                                             "directory %s although that work was finished" % (pno, rep[0][2], rep[0][1]))
                    fitted = set(work.fits(op, events, did))
                    mine = set((op["task"], op["dir"], parties.ident(m["kind"], m["params"]), did) for m in op["methods"])
                    if ok and len(mine & had) >= 60:
                        run.hit("probe/many_items")
                    if ok and (mine & had) - fitted:
                        run.hit("probe/reused_finished_work")
                        if crashed:
                            run.hit("probe/resumed_after_crash")
                        run.nontrivial = True
                if ok:
                    hist.check_table(tbl, op, "phase %d dir=%s" % (pno, op["dir"]))
                if proc.dead:
                    break
        run.simtime += proc.elapsed()
    for k, v in disk.fault_count.items():
        run.hit("fault/" + k, v)
    run.hit("file_operations", len(disk.log))
    run.log(tuple(disk.log))
