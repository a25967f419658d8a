"""Choice tape, run record, violations and injected faults."""
import hashlib
import random
import traceback
from collections import Counter

from dst import env


class Violation(Exception):
    """The property is broken. `kind` is the violation class kept by shrinking."""

    def __init__(self, kind, msg=""):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg


class HarnessError(Exception):
    """The simulator itself is broken (never reported as a violation)."""


class Injected(Exception):
    """A fault injected through user code or a jax seam."""


class InjectedInterrupt(KeyboardInterrupt):
    """An interrupt delivered inside user code."""


INJECTED = (Injected, InjectedInterrupt)


class Tape:
    """A stream of bounded choices: random when exploring, recorded when replaying.

    0 is always the simplest choice; replay past the end yields 0.
    """

    LIMIT = 200000

    def __init__(self, seed=None, choices=None):
        self.rng = random.Random(seed) if choices is None else None
        self.choices = choices
        self.out = []

    def draw(self, n):
        if n <= 1:
            return 0
        pos = len(self.out)
        if self.rng is not None:
            v = self.rng.randrange(n)
        else:
            v = self.choices[pos] if pos < len(self.choices) else 0
            if v >= n:
                v %= n
        self.out.append(v)
        if pos > self.LIMIT:
            raise HarnessError("choice tape exhausted")
        return v


class Run:
    """One simulated execution: every choice, event, fault and probe of it."""

    KEEP = 400

    def __init__(self, prop, seed=None, streams=None):
        self.prop = prop
        self.seed = seed
        self.streams = {}
        self._given = streams
        self.t = self.stream("p")
        self.hash = hashlib.blake2b(digest_size=8)
        self.events = []
        self.n_events = 0
        self.faults = Counter()
        self.probes = Counter()
        self.steps = 0
        self.sim_time = 0
        self.schedule = hashlib.blake2b(digest_size=8)
        self.switches = 0
        self.nontrivial = False
        self.states = set()

    def stream(self, name):
        if name not in self.streams:
            if self._given is not None:
                self.streams[name] = Tape(choices=self._given.get(name, []))
            else:
                self.streams[name] = Tape(seed=f"{self.seed}/{name}")
        return self.streams[name]

    def sub(self, name):
        """The same run, drawing from another stream (for a concurrent task)."""
        view = SubRun.__new__(SubRun)
        view.__dict__["_run"] = self
        view.__dict__["t"] = self.stream(name)
        return view

    # ---- choices
    def draw(self, n):
        return self.t.draw(n)

    def pick(self, seq):
        return seq[self.t.draw(len(seq))]

    def chance(self, permille):
        """True with probability permille/1000; 0 on the tape means False."""
        return self.t.draw(1000) >= 1000 - permille

    def weighted(self, pairs):
        total = sum(w for _, w in pairs)
        v = self.t.draw(total)
        for x, w in pairs:
            if v < w:
                return x
            v -= w
        raise AssertionError

    def rng_int(self, lo, hi):
        return lo + self.t.draw(hi - lo + 1)

    # ---- record
    def ev(self, *what):
        s = " ".join(w if isinstance(w, str) else repr(w) for w in what)
        self.n_events += 1
        self.hash.update(s.encode())
        self.hash.update(b"\n")
        if len(self.events) < self.KEEP:
            self.events.append(s)

    def fault(self, kind):
        self.faults[kind] += 1
        self.ev("FAULT", kind)

    def probe(self, kind):
        self.probes[kind] += 1

    def step(self, n=1):
        self.steps += n
        self.sim_time += n

    def ran(self, who):
        """Record which cooperative task takes the next step."""
        if who != getattr(self, "_who", who):
            self.switches += 1
        self._who = who
        self.schedule.update(repr(who).encode())

    def digest(self):
        h = self.hash.copy()
        h.update(self.schedule.digest())
        return h.hexdigest()

    def state(self, *what):
        self.states.add(hashlib.blake2b(repr(what).encode(), digest_size=6).hexdigest())

    # ---- oracle
    def check(self, ok, kind, msg=""):
        if not ok:
            raise Violation(kind, msg() if callable(msg) else msg)

    def must(self, what, fn, *a, **kw):
        """The operation has to succeed."""
        try:
            return fn(*a, **kw)
        except (Violation, HarnessError):
            raise
        except INJECTED:
            raise
        except Exception as e:  # noqa: BLE001
            if isinstance(e, RecursionError):
                raise Violation(f"{what}:RecursionError", "") from None
            raise Violation(f"{what}:{type(e).__name__}", f"{e}\n{short_tb(e)}") from e

    def attempt(self, fn, *a, **kw):
        """(True, value) or (False, exception)."""
        try:
            return True, fn(*a, **kw)
        except (Violation, HarnessError):
            raise
        except (Exception, InjectedInterrupt) as e:  # noqa: BLE001
            return False, e


class SubRun(Run):
    """Choices from its own stream, everything else shared with the run."""

    def __getattr__(self, name):
        return getattr(self.__dict__["_run"], name)

    def __setattr__(self, name, value):
        setattr(self.__dict__["_run"], name, value)


def short_tb(e, n=6):
    tb = traceback.extract_tb(e.__traceback__)
    return " <- ".join(f"{f.filename.rsplit('/', 1)[-1]}:{f.lineno}:{f.name}" for f in reversed(tb[-n:]))


def touches_sut(e):
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        for f in traceback.extract_tb(e.__traceback__):
            if f.filename.startswith(env.NNX_DIR) or "/jax/" in f.filename or "/flax/" in f.filename:
                return True
        e = e.__cause__ or e.__context__
    return False
