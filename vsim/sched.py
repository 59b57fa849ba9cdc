"""The scheduler: real threads, released one at a time, at points the scenario names.

A thread gives up control only at a yield point: a line (or instruction) of
mlpaper code, a call into a party the caller supplied (estimator, metric), a
file operation, a sleep, or a blocked lock.  `gaps` says after how many yield
points the next preemption comes and `picks` which runnable thread runs then;
when the lists are used up the running thread runs on and the others follow in
order.  So the two lists are the whole interleaving, and dropping elements of
them gives a simpler one.
"""
import sys
import threading

from vsim import loader, seams

TOOL = 3  # a free sys.monitoring tool id
_codes = None
_mode = None


def _walk(code, out):
    out.append(code)
    for c in code.co_consts:
        if hasattr(c, "co_code"):
            _walk(c, out)


def all_codes():
    global _codes
    if _codes is None:
        _codes = []
        for path in loader.package_files():
            mod = loader.code_of(path)
            for c in mod.co_consts:
                if hasattr(c, "co_code"):
                    _walk(c, _codes)
    return _codes


def _on_event(code, where):
    proc = seams.current()
    if proc is not None and not proc.dead:
        hook = getattr(proc, "line_hook", None)
        if hook is not None:
            # CPython reports a line once or twice in a row (the first time its code is monitored, or later): count it once
            here = (id(hook), code, where)
            if _mode == "line" and proc.last_line == here:
                return None
            proc.last_line = here
            hook(code, where)
    return None


def monitor(mode):
    """Report every 'line' or 'instr' of mlpaper code to the current process' line_hook (None: off)."""
    global _mode
    if mode == _mode:
        return
    mon = sys.monitoring
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, "vsim")
        mon.register_callback(TOOL, mon.events.LINE, _on_event)
        mon.register_callback(TOOL, mon.events.INSTRUCTION, _on_event)
    ev = {None: 0, "line": mon.events.LINE, "instr": mon.events.INSTRUCTION}[mode]
    for c in all_codes():
        mon.set_local_events(TOOL, c, ev)
    _mode = mode


class Deadlock(BaseException):
    pass


class _Task:
    def __init__(self, idx, proc, fn):
        self.idx, self.proc, self.fn = idx, proc, fn
        self.gate = seams._real_lock()
        self.gate.acquire()
        self.done = False
        self.blocked_on = None
        self.result = None
        self.error = None


class Sched:
    def __init__(self, gaps=(), picks=(), step_cap=2000000):
        self.gaps, self.picks = list(gaps), list(picks)
        self.gi = self.pi = 0
        self.left = self.gaps[0] if self.gaps else None
        self.gi = 1
        self.tasks = []
        self.cur = None
        self.steps = 0
        self.switches = 0
        self.trace = []  # (step, from, to)
        self.deadlock = False
        self.step_cap = step_cap
        self.finished = seams._real_lock()
        self.finished.acquire()
        self.aborting = False

    def add(self, proc, fn):
        proc.sched = self
        t = _Task(len(self.tasks), proc, fn)
        self.tasks.append(t)
        return t

    # -- choosing ---------------------------------------------------------
    def _runnable(self):
        out = []
        for t in self.tasks:
            if t.done:
                continue
            if t.blocked_on is not None and t.blocked_on.owner is not None:
                continue
            out.append(t)
        return out

    def _pick(self, cands):
        if self.pi < len(self.picks):
            k = self.picks[self.pi]
            self.pi += 1
            return cands[k % len(cands)]
        return cands[0]

    def _next_gap(self):
        if self.gi < len(self.gaps):
            self.left = self.gaps[self.gi]
            self.gi += 1
        else:
            self.left = None

    # -- called from the running thread ------------------------------------
    def yield_point(self, kind):
        t = self.cur
        if t is None or seams.current() is not t.proc:
            return
        self.steps += 1
        if self.steps > self.step_cap:
            raise Deadlock("more than %d steps" % self.step_cap)
        if self.left is None:
            return
        if self.left > 0:
            self.left -= 1
            return
        self._next_gap()
        self.preempt()

    def preempt(self):
        t = self.cur
        if t is None or seams.current() is not t.proc:
            return
        cands = [x for x in self._runnable() if x is not t]
        if cands:
            self._switch(t, self._pick(cands))

    def block(self, lock):
        t = self.cur
        t.blocked_on = lock
        cands = [x for x in self._runnable() if x is not t]
        if not cands:
            self.deadlock = True
            raise Deadlock("every simulated thread is blocked")
        self._switch(t, self._pick(cands))
        t.blocked_on = None

    def _switch(self, a, b):
        self.switches += 1
        self.trace.append((self.steps, a.idx, b.idx))
        self.cur = b
        b.gate.release()
        a.gate.acquire()

    # -- running ----------------------------------------------------------
    def _main(self, t):
        t.gate.acquire()
        with seams.use(t.proc):
            try:
                t.result = t.fn()
            except BaseException as e:  # recorded, judged by the oracle
                t.error = e
        t.done = True
        for x in self.tasks:  # a lock its owner died with stays held
            pass
        cands = self._runnable()
        if cands:
            nxt = self._pick(cands)
            self.trace.append((self.steps, t.idx, nxt.idx))
            self.cur = nxt
            nxt.gate.release()
        elif all(x.done for x in self.tasks):
            self.cur = None
            self.finished.release()
        else:  # the rest wait for locks nobody will release
            self.deadlock = True
            nxt = [x for x in self.tasks if not x.done][0]
            nxt.blocked_on.owner = None  # let it go on, so that the run ends
            self.cur = nxt
            nxt.gate.release()

    def run(self):
        if not self.tasks:
            return
        threads = [threading.Thread(target=self._main, args=(t,), daemon=True) for t in self.tasks]
        for th in threads:
            th.start()
        first = self._pick(self.tasks)
        self.cur = first
        first.gate.release()
        self.finished.acquire()
        for th in threads:
            th.join()
        self.cur = None
