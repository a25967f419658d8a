"""Process environment of the simulator: import this before jax or nnx.

Puts the outward sources of nondeterminism behind seams:
  * locks that nnx creates become scheduler-aware (SimLock);
  * every function nnx registers with jax as a flatten/unflatten callback is
    remembered, so that the scheduler never preempts inside a callback made by
    jax's C++ code;
  * XLA runs single threaded.
"""
import os
import sys

REPO = os.path.realpath(os.environ.get("DST_REPO", "/repo"))
NNX_DIR = os.path.join(REPO, "nnx") + os.sep
DST_DIR = os.path.dirname(os.path.realpath(__file__)) + os.sep
STDLIB_DIR = os.path.dirname(os.path.realpath(os.__file__)) + os.sep
DEVICES = 4

os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ["XLA_FLAGS"] = (
    f"--xla_force_host_platform_device_count={DEVICES} --xla_backend_optimization_level=0"
    " --xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
)
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.dont_write_bytecode = True
if sys.path[0:1] != [REPO]:
    sys.path.insert(0, REPO)
sys.setrecursionlimit(4000)

import threading  # noqa: E402
import _thread  # noqa: E402

real_allocate = _thread.allocate_lock
_real_Lock = threading.Lock
_real_RLock = threading.RLock

# set by sched.py: () -> Sched or None, if the calling thread is a simulated task
current_sched = lambda: None  # noqa: E731


class SimLock:
    """A lock owned by nnx: blocking on it is a scheduling decision."""

    def __init__(self, reentrant=False):
        self._reentrant = reentrant
        self._real = _real_RLock() if reentrant else _real_Lock()
        self._owner = None
        self._depth = 0

    def acquire(self, blocking=True, timeout=-1):
        s = current_sched()
        if s is None:
            return self._real.acquire(blocking, timeout)
        me = s.current_task()
        s.point("lock.acquire")
        while self._owner is not None and not (self._reentrant and self._owner is me):
            if not blocking or timeout == 0:
                return False
            s.block(self)
        self._owner = me
        self._depth += 1
        return True

    def release(self):
        s = current_sched()
        if s is None:
            return self._real.release()
        self._depth -= 1
        if self._depth == 0:
            self._owner = None
            s.unblock(self)
        s.point("lock.release")

    def locked(self):
        s = current_sched()
        return self._owner is not None if s is not None else self._real.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()


def _from_nnx():
    f = sys._getframe(2)
    return f.f_code.co_filename.startswith(NNX_DIR)


def _lock():
    return SimLock() if _from_nnx() else _real_Lock()


def _rlock():
    return SimLock(True) if _from_nnx() else _real_RLock()


CALLBACK_CODES = set()


def _remember(fn):
    import functools

    while True:
        if isinstance(fn, functools.partial):
            fn = fn.func
        elif hasattr(fn, "__func__"):
            fn = fn.__func__
        elif hasattr(fn, "__wrapped__"):
            fn = fn.__wrapped__
        else:
            break
    code = getattr(fn, "__code__", None)
    if code is not None:
        CALLBACK_CODES.add(code)


def _patch_jax_registration():
    import jax
    import jax.tree_util as jtu

    def wrap(name):
        orig = getattr(jtu, name)

        def registered(nodetype, *fns, **kw):
            for fn in (*fns, *kw.values()):
                if callable(fn):
                    _remember(fn)
            return orig(nodetype, *fns, **kw)

        # nnx inspects this signature to choose a registration form
        import inspect

        registered.__signature__ = inspect.signature(orig)
        setattr(jtu, name, registered)

    wrap("register_pytree_node")
    wrap("register_pytree_with_keys")
    return jax


_loaded = False


def load():
    """Import jax and nnx behind the seams; returns the nnx package."""
    global _loaded
    if not _loaded:
        if "nnx" in sys.modules:
            raise RuntimeError("nnx imported before the seams were installed")
        _patch_jax_registration()
        threading.Lock = _lock
        threading.RLock = _rlock
        try:
            import nnx  # noqa: F401
        finally:
            threading.Lock = _real_Lock
            threading.RLock = _real_RLock
        path = os.path.realpath(sys.modules["nnx"].__file__)
        if not path.startswith(NNX_DIR):
            raise RuntimeError(f"nnx imported from {path}, expected {NNX_DIR}")
        _loaded = True
    return sys.modules["nnx"]
