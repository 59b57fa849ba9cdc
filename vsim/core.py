"""Running many seeded scenarios, minimising and replaying a failing one, writing evidence."""
import collections
import copy
import hashlib
import io
import json
import mmap
import os
import pickle
import random
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time as _time_mod
import traceback

_wall = _time_mod.time  # the real clock, taken before the seams are installed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VSIM_EVIDENCE", os.path.join(VERIF, "evidence"))
RUN_TIMEOUT = 150


class Violation(Exception):
    """The property is broken; cls names the way, and is what minimisation keeps."""

    def __init__(self, cls, msg):
        Exception.__init__(self, "%s: %s" % (cls, msg))
        self.cls, self.msg = cls, msg


class Hang(BaseException):
    pass


class Run:
    """What one simulated run reports."""

    def __init__(self):
        self.stats = collections.Counter()  # faults that fired, probes that were hit
        self.events = []  # the event log; its digest identifies the execution
        self.inter = None  # signature of the interleaving / fault placement
        self.nontrivial = False
        self.simtime = 0.0
        self.violation = None
        self.results = None  # comparable digest of the results, for cross process comparison

    def log(self, *what):
        self.events.append(what)

    def hit(self, probe, n=1):
        self.stats[probe] += n

    def digest(self):
        return hashlib.sha256(repr(self.events).encode()).hexdigest()[:16]

    def signature(self):
        return hashlib.sha256(repr(self.inter if self.inter is not None else self.events).encode()).hexdigest()[:16]


_scratch = []


def scratch_dir():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    d = tempfile.mkdtemp(prefix="vsim-", dir=base)
    _scratch.append((os.getpid(), d))
    return d


def drop_scratch():
    while _scratch and _scratch[-1][0] == os.getpid():
        shutil.rmtree(_scratch.pop()[1], ignore_errors=True)


class quiet:
    """Swallow what the library prints (verbose=True)."""

    def __enter__(self):
        self.old, sys.stdout = sys.stdout, io.StringIO()
        return sys.stdout

    def __exit__(self, *exc):
        sys.stdout = self.old
        return False


def rng_for(seed, pid, i):
    return random.Random("vsim/%s/%s/%s" % (seed, pid, i))


def _alarm(signum, frame):
    raise Hang("the run took more than %d s" % RUN_TIMEOUT)


def run_one(prop, scenario, timeout=RUN_TIMEOUT):
    """Execute one scenario from a clean state; harness errors propagate."""
    from vsim import ambient, sched, seams

    cwd = os.getcwd()
    home = ambient._start["cwd"]
    ambient._start["cwd"] = scratch_dir()  # what the code leaves in its working directory, it leaves there
    ambient.reset()
    run = Run()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        prop.execute(copy.deepcopy(scenario), run)
    except Violation as v:
        run.violation = (v.cls, v.msg)
    except Hang as h:
        run.violation = ("hang", str(h))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        seams._tls.proc = None
        sched.monitor(None)
        ambient._start["cwd"] = home
        os.chdir(cwd)
        drop_scratch()
        ambient.reset()
    return run


# ---------------------------------------------------------------------------
# Minimising
# ---------------------------------------------------------------------------


def _paths(obj, keys, pre=()):
    if isinstance(obj, dict):
        for k, v in obj.items():
            if k in keys and isinstance(v, (list, dict)):
                yield pre + (k,)
            yield from _paths(v, keys, pre + (k,))
    elif isinstance(obj, list):
        for i, v in enumerate(obj):
            if isinstance(v, (list, dict)):
                yield from _paths(v, keys, pre + (i,))


def _get(obj, path):
    for p in path:
        obj = obj[p]
    return obj


def shrink(prop, scenario, cls, budget_s=45.0):
    keys = set(getattr(prop, "SHRINK", ("ops", "lives", "faults", "gaps", "picks", "methods", "plan", "tasks")))
    t_end = _wall() + budget_s
    tries = 0
    fixups = getattr(prop, "fixup", None)

    def bad(s):
        nonlocal tries
        tries += 1
        if fixups is not None:
            s = fixups(s)
            if s is None:
                return None
        try:
            r = run_one(prop, s)
        except BaseException:
            return None
        return s if r.violation is not None and r.violation[0] == cls else None

    changed = True
    while changed and _wall() < t_end:
        changed = False
        for path in list(_paths(scenario, keys)):
            try:
                obj = _get(scenario, path)
            except (KeyError, IndexError, TypeError):
                continue
            if isinstance(obj, dict):
                for k in sorted(obj, key=str):
                    if _wall() > t_end:
                        break
                    s = copy.deepcopy(scenario)
                    del _get(s, path)[k]
                    s = bad(s)
                    if s is not None:
                        scenario, changed = s, True
                continue
            size = len(obj)
            while size >= 1 and _wall() < t_end:
                i = 0
                while i < len(_get(scenario, path)) and _wall() < t_end:
                    s = copy.deepcopy(scenario)
                    del _get(s, path)[i:i + size]
                    s = bad(s)
                    if s is not None:
                        scenario, changed = s, True
                        try:
                            _get(scenario, path)
                        except (KeyError, IndexError, TypeError):
                            break
                    else:
                        i += size
                try:
                    size = min(size // 2, max(len(_get(scenario, path)), 0) or 0)
                except (KeyError, IndexError, TypeError):
                    break
        for cand in getattr(prop, "simplify", lambda s: [])(scenario):
            if _wall() > t_end:
                break
            s = bad(copy.deepcopy(cand))
            if s is not None:
                scenario, changed = s, True
                break
    return scenario, tries


# ---------------------------------------------------------------------------
# The pool
# ---------------------------------------------------------------------------


def _worker(prop, seed, tier, idxs, wfd, t_end, stop):
    out = os.fdopen(wfd, "wb")
    done = []
    try:
        for i in idxs:
            if _wall() > t_end or stop[0]:
                break
            scenario = prop.generate(rng_for(seed, prop.PID, i), i, tier)
            done.append(i)
            t0 = _wall()
            try:
                r = run_one(prop, scenario)
            except BaseException:
                pickle.dump(("error", i, traceback.format_exc()), out)
                out.flush()
                return
            pickle.dump(("run", i, dict(r.stats), r.digest(), r.signature(), r.nontrivial, r.simtime, r.violation,
                         len(r.events), _wall() - t0), out)
            out.flush()
            if r.violation is not None:
                stop[0] = 1
                pickle.dump(("history", i, list(done)), out)
                out.flush()
                return
        pickle.dump(("end",), out)
        out.flush()
    finally:
        out.close()


def _pool(prop, seed, tier, idxs, nworkers, t_end):
    """Fork workers, stream their messages; stops early on a violation."""
    pipes = {}
    stop = mmap.mmap(-1, 1)  # shared with the workers
    for w in range(nworkers):
        mine = idxs[w::nworkers]
        if not mine:
            continue
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            for f in pipes:
                try:
                    os.close(f)
                except OSError:
                    pass
            code = 0
            try:
                _worker(prop, seed, tier, mine, wfd, t_end, stop)
            except BaseException:
                traceback.print_exc()
                code = 3
            os._exit(code)
        os.close(wfd)
        pipes[rfd] = [pid, b""]
    msgs = []
    while pipes:
        ready, _, _ = select.select(list(pipes), [], [], 5.0)
        for fd in ready:
            data = os.read(fd, 1 << 16)
            if data:
                pipes[fd][1] += data
                continue
            pid, raw = pipes.pop(fd)
            os.close(fd)
            _, st = os.waitpid(pid, 0)
            msgs.append((pid, raw, st))
    out = []
    for pid, raw, st in msgs:
        f = io.BytesIO(raw)
        got_end = False
        while True:
            try:
                m = pickle.load(f)
            except EOFError:
                break
            except pickle.UnpicklingError:
                break
            if m[0] in ("end", "history", "error"):
                got_end = True
            out.append(m)
        if not got_end:
            out.append(("died", pid, st))
    return out


def _known():
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: property="):
                    pid, _, rest = line[len("known: property="):].partition(" ")
                    out.append((pid, rest))
    return out


def _write_json(path, obj):
    tmp = "%s.%d" % (path, os.getpid())
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, sort_keys=True, default=str)
        f.write("\n")
    os.replace(tmp, path)


def replay_file(prop, path):
    with open(path) as f:
        rep = json.load(f)
    if rep["mode"] == "scenario":
        r = run_one(prop, rep["scenario"])
    elif rep["mode"] == "cross":
        r = Run()
        v = prop.cross([rep["scenario"]], rep["cross"])
        r.violation = v[1] if v else None
    else:
        r = None
        for i in rep["runs"]:
            r = run_one(prop, prop.generate(rng_for(rep["seed"], prop.PID, i), i, rep["tier"]))
    return rep, r


def _confirm(pid, path):
    """Replay in a fresh interpreter; True when it fails the same way."""
    p = subprocess.run([os.path.join(VERIF, "check"), "replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=dict(os.environ, VSIM_CONFIRM="1"), timeout=600)
    return p.returncode == 1, p.stdout.decode("utf-8", "replace")


def check(prop, tier, seed):
    pid = prop.PID
    t0 = _wall()
    plan = prop.PLAN[tier]  # dict: runs, wall, min
    nruns = int(os.environ.get("VSIM_RUNS", plan["runs"]))
    nworkers = int(os.environ.get("VSIM_WORKERS", min(8, os.cpu_count() or 1)))
    os.makedirs(EVID, exist_ok=True)
    repdir = os.path.join(EVID, "replays")
    os.makedirs(repdir, exist_ok=True)
    for f in os.listdir(repdir):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(repdir, f))
    print("%s tier=%s seed=%d runs=%d workers=%d" % (pid, tier, seed, nruns, nworkers), flush=True)

    idxs = list(range(nruns))
    msgs = _pool(prop, seed, tier, idxs, nworkers, t0 + plan["wall"])
    runs = sorted([m for m in msgs if m[0] == "run"], key=lambda m: m[1])
    errors = [m for m in msgs if m[0] in ("error", "died")]
    hist = {m[1]: m[2] for m in msgs if m[0] == "history"}
    viol = [m for m in runs if m[7] is not None]

    # A sample of the runs again, in other processes and another worker count: same digests?
    mismatches, rechecked = [], 0
    if not viol and not errors:
        n = min(len(runs), plan.get("recheck", 24))
        if n:
            step = max(1, len(runs) // n)
            again = [m[1] for m in runs[::step]][:n]
            msgs2 = _pool(prop, seed, tier, again, max(1, min(3, nworkers)), t0 + plan["wall"] + 60)
            first = {m[1]: m for m in runs}
            for m in msgs2:
                if m[0] != "run":
                    continue
                rechecked += 1
                if m[3] != first[m[1]][3]:
                    mismatches.append(m[1])
                    print("warning: run %d did not repeat exactly" % m[1])

    violation = None
    if viol:
        m = viol[0]
        scenario = prop.generate(rng_for(seed, pid, m[1]), m[1], tier)
        violation = dict(cls=m[7][0], msg=m[7][1], run=m[1], scenario=scenario)
        print("run %d breaks the property: %s: %s" % (m[1], m[7][0], m[7][1][:2000]), flush=True)
        violation = _report(prop, tier, seed, violation, hist.get(m[1], [m[1]]), repdir)
    elif not errors and hasattr(prop, "cross"):
        sample = [m[1] for m in runs][: plan.get("cross", 0)]
        cv = prop.cross_check(seed, tier, sample, nworkers) if sample else None
        cross_stats = getattr(prop, "cross_stats", {})
        if cv is not None:
            i, v, spec = cv
            scenario = prop.generate(rng_for(seed, pid, i), i, tier)
            path = os.path.join(repdir, "%s-cross-%d.json" % (pid, i))
            _write_json(path, dict(property=pid, mode="cross", seed=seed, tier=tier, run=i, cls=v[0], message=v[1],
                                   scenario=scenario, cross=spec))
            violation = dict(path=path, cls=v[0], msg=v[1])
            print("run %d breaks the property: %s: %s" % (i, v[0], v[1][:2000]))

    stats = collections.Counter()
    for m in runs:
        stats.update(m[2])
    wall = _wall() - t0
    nontriv = set(m[4] for m in runs if m[5])
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault/")}
    probes = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("probe/")}
    other = {k: v for k, v in sorted(stats.items()) if "/" not in k}
    samples = []
    for i in [m[1] for m in runs if m[5]][:3]:
        samples.append(dict(run=i, scenario=prop.generate(rng_for(seed, pid, i), i, tier)))
    ev = dict(
        property=pid, tier=tier, seed=seed, level="exploration", wall_s=round(wall, 2),
        violations=1 if violation else 0,
        coverage=dict(
            evaluations=len(runs),
            distinct_nontrivial=len(nontriv),
            rule=prop.RULE,
            samples=samples,
            simulated_runs_per_hour=int(len(runs) / max(wall, 1e-9) * 3600),
            seeds="%d scenario seeds derived from VERIF_SEED=%d" % (len(runs), seed),
            simulated_time_s=round(sum(m[6] for m in runs), 3),
            faults_injected=faults,
            probes=probes,
            counts=other,
            distinct_executions=len(set(m[3] for m in runs)),
            events_logged=sum(m[8] for m in runs),
            max_run_s=round(max([m[9] for m in runs] or [0]), 3),
            determinism=dict(rechecked=rechecked, mismatches=len(mismatches)),
            real_components=prop.REAL, stubs=prop.STUBS,
        ),
        assumptions=prop.ASSUMPTIONS,
    )
    if hasattr(prop, "cross_stats"):
        ev["coverage"]["cross_process"] = prop.cross_stats
    _write_json(os.path.join(EVID, pid + ".json"), ev)

    for kpid, text in _known():
        if kpid == pid:
            print("KNOWN-FINDING: property=%s %s" % (kpid, text))
    print("%s: %d runs, %d distinct non-trivial, %.1f s" % (pid, len(runs), len(nontriv), wall))
    print("  faults: %s" % json.dumps(faults))
    print("  probes: %s" % json.dumps(probes))
    if violation is not None:
        if violation.get("unconfirmed"):
            print("error: the violation did not repeat in a fresh process", file=sys.stderr)
            return 2
        print("VIOLATION property=%s replay=%s" % (pid, violation["path"]))
        return 1
    if errors:
        for e in errors[:3]:
            print("harness error: %s" % (e,), file=sys.stderr)
            if e[0] == "error":
                print(e[2], file=sys.stderr)
        return 2
    if len(runs) < min(nruns, plan["min"]):
        print("error: only %d of %d runs in %.0f s" % (len(runs), nruns, wall), file=sys.stderr)
        return 2
    missing = [p for p in getattr(prop, "MUST_HIT", ()) if not stats.get(p)]
    if missing and len(runs) >= plan["runs"]:
        # reach, not correctness: say so, in the evidence and here
        print("  note: never reached: %s" % ", ".join(missing))
    return 0


def _report(prop, tier, seed, v, history, repdir):
    pid = prop.PID
    small, tries = shrink(prop, v["scenario"], v["cls"])
    try:
        final = run_one(prop, small)
    except BaseException:
        final = None
    if final is None or final.violation is None:
        small = v["scenario"]
        final = run_one(prop, small)
    base = os.path.join(repdir, "%s-%d" % (pid, v["run"]))
    msg = final.violation or (v["cls"], v["msg"])
    rep = dict(property=pid, mode="scenario", seed=seed, tier=tier, run=v["run"], cls=msg[0], message=msg[1],
               scenario=small, original_message=v["msg"], shrink_tries=tries,
               trace=[repr(e) for e in final.events[-200:]], digest=final.digest())
    path = base + ".json"
    _write_json(path, rep)
    ok, out = _confirm(pid, path)
    if not ok:
        rep.update(scenario=v["scenario"], cls=v["cls"], message=v["msg"])
        _write_json(path, rep)
        ok, out = _confirm(pid, path)
    if not ok:
        rep = dict(property=pid, mode="history", seed=seed, tier=tier, run=v["run"], runs=history, cls=v["cls"],
                   message=v["msg"])
        _write_json(path, rep)
        ok, out = _confirm(pid, path)
    return dict(path=path, cls=v["cls"], msg=v["msg"], unconfirmed=not ok)
