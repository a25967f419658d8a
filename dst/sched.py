"""Deterministic scheduler for real threads: one baton, seeded preemption.

Every simulated task is a real thread, but only the holder of the baton runs.
Preemption points are the calls, lines or bytecodes of nnx frames (decided per
run) and the operations of locks nnx owns; which task runs next, and after how
many points, is read from the run's choice tape.
"""
import sys
import threading

from dst import env
from dst.core import HarnessError, Violation

_local = threading.local()

# CPython delivers opcode events only to traces installed after the first time any
# frame asked for them: ask now, so that the first run behaves like all others
sys._getframe().f_trace_opcodes = True
sys._getframe().f_trace_opcodes = False


def _current():
    return getattr(_local, "sched", None)


env.current_sched = _current

_CODE_KIND = {}


def _code_kind(code):
    k = _CODE_KIND.get(code)
    if k is None:
        fn = code.co_filename
        if fn.startswith(env.NNX_DIR):
            if code in env.CALLBACK_CODES or code.co_name in ("__eq__", "__hash__"):
                k = "callback"
            else:
                k = "nnx"
        elif fn.startswith(env.DST_DIR):
            k = "workload"
        elif fn == "<string>" or fn.endswith("/flax/serialization.py") or (fn.startswith(env.STDLIB_DIR) and "site-packages" not in fn):
            k = "transparent"
        elif code.co_name == "call_wrapped" and fn.endswith("linear_util.py"):
            k = "tracing"
        else:
            k = "other"
        _CODE_KIND[code] = k
    return k


class Task:
    def __init__(self, sched, idx, name, fn):
        self.sched, self.idx, self.name, self.fn = sched, idx, name, fn
        self.sem = threading.Semaphore(0)
        self.done = False
        self.blocked_on = None
        self.exc = None
        self.result = None
        self.in_trace = False


class Sched:
    def __init__(self, run, granularity="line", scale=8, preempt_tracing=True, max_points=20000):
        self.run = run
        self.tape = run.stream("s")
        self.granularity = granularity
        self.scale = scale
        self.preempt_tracing = preempt_tracing
        self.max_points = max_points
        self.tasks = []
        self.points = 0
        self.current = None
        self.gap = 0
        self.main = threading.Semaphore(0)
        self.failed = None
        self.atomic_depth = 0

    def spawn(self, name, fn):
        t = Task(self, len(self.tasks), name, fn)
        self.tasks.append(t)
        return t

    def current_task(self):
        return self.current

    # ---- driving
    def go(self):
        if not self.tasks:
            return
        threads = []
        for t in self.tasks:
            th = threading.Thread(target=self._body, args=(t,), name=f"sim-{t.name}", daemon=True)
            threads.append(th)
            th.start()
        first = self.tasks[self.tape.draw(len(self.tasks))]
        self._give(first)
        if not self.main.acquire(timeout=120):
            import faulthandler

            faulthandler.dump_traceback()
            raise HarnessError("simulated tasks made no progress (native block while holding the baton)")
        if self.failed is not None:
            raise self.failed
        for th in threads:
            th.join(60)
        for t in self.tasks:
            if isinstance(t.exc, (Violation, HarnessError)):
                raise t.exc
        for t in self.tasks:
            if t.exc is not None:
                raise t.exc

    def _give(self, task):
        self.current = task
        g = self.tape.draw(2 * self.scale)
        self.gap = g if g else -1
        self.run.schedule.update(b"%d:%d;" % (task.idx, self.points))
        task.sem.release()

    def _body(self, t):
        t.sem.acquire()
        if self.failed is not None:
            return
        _local.sched = self
        try:
            sys.settrace(self._trace)
            try:
                t.result = t.fn()
            finally:
                sys.settrace(None)
        except BaseException as e:  # noqa: BLE001
            t.exc = e
        finally:
            _local.sched = None
            t.done = True
            self._finish()

    def _runnable(self):
        return [t for t in self.tasks if not t.done and t.blocked_on is None]

    def _finish(self):
        if isinstance(self.current.exc, (Violation, HarnessError)):
            # stop the run at the first violation
            self.failed = self.current.exc
            self.main.release()
            return
        rest = self._runnable()
        if rest:
            self._give(rest[self.tape.draw(len(rest))])
        elif any(not t.done for t in self.tasks):
            self.failed = Violation("deadlock", "all simulated threads block on locks")
            self.main.release()
        else:
            self.main.release()

    # ---- called by the running task
    def point(self, label):
        if self.atomic_depth:
            return
        self.points += 1
        if self.gap > 0:
            self.gap -= 1
            if self.gap == 0:
                if self.points > self.max_points:
                    self.gap = -1
                    return
                self._switch(label)

    def _switch(self, label):
        me = self.current
        others = [t for t in self._runnable() if t is not me]
        if not others:
            g = self.tape.draw(2 * self.scale)
            self.gap = g if g else -1
            return
        nxt = others[self.tape.draw(len(others))]
        self.run.switches += 1
        self.run.schedule.update(label.encode())
        self._give(nxt)
        me.sem.acquire()
        if self.failed is not None:
            raise SystemExit

    def block(self, lock):
        me = self.current
        me.blocked_on = lock
        rest = self._runnable()
        if not rest:
            v = Violation("deadlock", "all simulated threads block on locks")
            self.failed = v
            me.blocked_on = None
            raise v
        self.run.probe("lock contention")
        self._give(rest[self.tape.draw(len(rest))])
        me.sem.acquire()
        if self.failed is not None:
            raise SystemExit

    def unblock(self, lock):
        for t in self.tasks:
            if t.blocked_on is lock:
                t.blocked_on = None

    def yield_(self, label="yield"):
        """An explicit preemption point of the workload."""
        self.point(label)

    # ---- tracing
    def _trace(self, frame, event, arg):
        code = frame.f_code
        if _code_kind(code) != "nnx":
            return None
        f = frame.f_back
        while f is not None:
            k = _code_kind(f.f_code)
            if k == "transparent":
                f = f.f_back
                continue
            if k == "workload":
                break
            if k == "nnx":
                if f.f_trace is None:
                    return None
                break
            if k == "tracing":
                if not self.preempt_tracing:
                    return None
                break
            return None
        if f is None:
            return None
        if self.granularity == "opcode":
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        elif self.granularity == "call":
            frame.f_trace_lines = False
        self.point(code.co_name)
        return self._local_trace

    def _local_trace(self, frame, event, arg):
        if event == "line" or event == "opcode" or event == "return":
            self.point(frame.f_code.co_name)
        return self._local_trace


def maybe(run):
    """Run-level scheduler parameters, drawn swarm style."""
    gran = run.weighted([("line", 5), ("call", 2), ("opcode", 3)])
    scale = run.pick([4, 2, 10, 30, 120])
    return dict(granularity=gran, scale=scale)


def threads(run, bodies, **over):
    """Runs [(name, fn)] as simulated threads; returns their results."""
    kw = maybe(run)
    kw.update(over)
    s = Sched(run, **kw)
    run.ev("threads", len(bodies), kw["granularity"], kw["scale"])
    ts = [s.spawn(n, f) for n, f in bodies]
    s.go()
    run.step(s.points)
    if s.points:
        run.probe("runs with preemption points")
    return [t.result for t in ts]


def point(label="workload"):
    s = _current()
    if s is not None:
        s.point(label)


class atomic:
    """No preemption inside: for code that may hold locks of jax."""

    def __enter__(self):
        self.s = _current()
        if self.s is not None:
            self.s.atomic_depth += 1

    def __exit__(self, *exc):
        if self.s is not None:
            self.s.atomic_depth -= 1
