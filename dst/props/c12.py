"""C12: immutable pytrees under concurrent constructors, replacements and failures.

Simulated threads share a pool of pytrees of plain, derived, dataclass and frozen
dataclass types, of a mutable type and TrainStates. They construct (with constructors
that build and touch other pytrees and fail part-way), replace, restore, copy, pickle
and map them, and try to assign or delete fields at every point, being preempted inside
nnx. The recorded fields of every pytree are compared throughout.
"""
import copy
import pickle
from typing import Any

import jax
import jax.numpy as jnp
import numpy as np
import optax
from flax import serialization

from dst import sched
from dst.core import Injected, InjectedInterrupt, Violation
from dst.model import nnx


class Boom:
    """What the running constructor has to do: set per construction."""

    def __init__(self, actor, fail_at, exc):
        self.actor, self.fail_at, self.exc = actor, fail_at, exc
        self.n = 0
        self.obj = None

    def point(self, obj):
        if self.actor is None:
            return
        self.n += 1
        self.obj = obj
        if self.n == self.fail_at:
            self.actor.r.fault(f"constructor fails by {self.exc.__name__}")
            raise self.exc("constructor")
        self.actor.inside_constructor()

    # not compared, not printed
    def __eq__(self, other):
        return isinstance(other, Boom)

    def __hash__(self):
        return 1

    def __reduce__(self):
        return (Boom, (None, 0, None))

    def __deepcopy__(self, memo):
        return self


QUIET = Boom(None, 0, None)


class Plain(nnx.Pytree):
    def __init__(self, x, y, boom=QUIET):
        self.x = x
        boom.point(self)
        self.y = y
        boom.point(self)


class Derived(Plain):
    def __init__(self, x, y, z, boom=QUIET):
        self.z = z
        boom.point(self)
        super().__init__(x, y, boom)


class Loose(nnx.Pytree, mutable=True):
    def __init__(self, x, y, boom=QUIET):
        self.x = x
        boom.point(self)
        self.y = y


@nnx.dataclass
class Data(nnx.Pytree):
    x: Any
    p: Any = nnx.param_field(default=1)
    n: Any = nnx.node_field(default=2)
    s: Any = nnx.static_field(default=3)

    def __post_init__(self):
        HOOK.point(self)


@nnx.dataclass(frozen=True)
class Frozen(nnx.Pytree):
    x: Any = nnx.node_field()
    y: Any = nnx.field(default=2)


class _Hook:
    """Runs in Data.__post_init__ of the thread that set it."""

    def __init__(self):
        import threading

        self.local = threading.local()

    def point(self, obj):
        boom = getattr(self.local, "boom", None)
        if boom is not None:
            boom.point(obj)


HOOK = _Hook()
TYPES = {"Plain": (Plain, ["x", "y"]), "Derived": (Derived, ["x", "y", "z"]), "Loose": (Loose, ["x", "y"]),
         "Data": (Data, ["x", "p", "n", "s"]), "Frozen": (Frozen, ["x", "y"])}
WRAP = {("Data", "p"): nnx.Param, ("Data", "n"): nnx.Node, ("Data", "s"): nnx.Static, ("Frozen", "x"): nnx.Node}


# ------------------------------------------------------------------ fingerprints
def fp(v):
    if isinstance(v, nnx.Pytree):
        return (type(v).__name__, *((k, fpc(vars(v)[k])) for k in sorted(vars(v)) if not k.startswith("_")))
    if isinstance(v, (np.ndarray, jax.Array)):
        return ("array", str(v.dtype), v.shape, np.asarray(v).tobytes())
    if isinstance(v, nnx.State):
        return ("state", tuple((k, fpc(dict(v.items())[k])) for k in sorted(v.keys())))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, *(fpc(i) for i in v))
    if isinstance(v, dict):
        return ("dict", *((k, fpc(i)) for k, i in sorted(v.items())))
    if v is None or isinstance(v, (int, float, str, bool)):
        return (type(v).__name__, v)
    return ("id", id(v))


def fpc(v):
    """A field as it is stored: its container, metadata and value."""
    if isinstance(v, nnx.Container):
        return (type(v).__name__, tuple(sorted((k, repr(m)) for k, m in vars(v).items() if k != "value")), fp(v.value))
    return fp(v)


def fields(obj):
    return {k: fpc(v) for k, v in vars(obj).items() if not k.startswith("_")}


class Rec:
    def __init__(self, obj, kind, want, deps=()):
        self.obj, self.kind, self.want = obj, kind, want
        self.deps = deps      # keeps values alive


def depth(v):
    return 1 + max((depth(getattr(v, k)) for k in vars(v) if not k.startswith("_")), default=0) \
        if isinstance(v, nnx.Pytree) else 0


class World:
    def __init__(self):
        self.recs = []
        self.refused = 0
        self.changed = 0


class Actor:
    def __init__(self, r, name, world, ts):
        self.r, self.name, self.w, self.ts = r, name, world, ts
        self.depth = 0

    def ev(self, *what):
        self.r.ev(f"[{self.name}]", *what)

    # ---- oracle
    def verify(self, rec, when):
        got = fields(rec.obj)
        if rec.kind == "Loose":
            return      # its fields may be assigned by any thread
        self.r.check(got == rec.want, "a field changed", lambda: f"{self.name}: {rec.kind} {when}: {got} instead of "
                                                                 f"{rec.want}")

    def add(self, obj, kind, want, deps, what):
        rec = Rec(obj, kind, want, deps)
        self.verify(rec, f"just made by {what}")
        if kind == "Loose":
            self.r.check(fields(obj) == want, "a field changed", lambda: f"{what}: {fields(obj)} instead of {want}")
        else:
            self.assign(rec)
        if len(self.w.recs) < 14:
            self.w.recs.append(rec)
        else:
            self.w.recs[self.r.draw(len(self.w.recs))] = rec
        return rec

    # ---- values
    def value(self, containers=True):
        r = self.r
        k = r.weighted([("int", 3), ("np", 2), ("jnp", 1), ("pytree", 2), ("param", 3 if containers else 0),
                        ("static", 1 if containers else 0), ("node", 1 if containers else 0), ("list", 1)])
        n = r.draw(6)
        if k == "int":
            return n
        if k == "np":
            return np.full((2,), n, np.float32)
        if k == "jnp":
            return ARRAYS[n]
        if k == "list":
            return [n, "t"]
        if k == "pytree":
            small = [c for c in self.w.recs if c.kind not in ("Loose", "Leaked", "TrainState") and depth(c.obj) < 3]
            return r.pick(small).obj if small else n
        if k == "param":
            return nnx.Param(n) if r.chance(500) else nnx.Param(np.full((2,), n, np.float32), sharding=("ab"[n % 2],))
        return (nnx.Static if k == "static" else nnx.Node)(n)

    def stored(self, kind, name, v):
        """How a constructor stores v in this field; None if it has to refuse."""
        wrap = WRAP.get((kind, name))
        if wrap is None:
            return fpc(v)
        if isinstance(v, nnx.Container):
            plain = wrap(0)
            return fpc(v) if v.is_equivalent(plain) else None
        return fpc(wrap(v))

    # ---- operations
    def construct(self):
        r = self.r
        kind = r.weighted([("Plain", 4), ("Derived", 3), ("Data", 4), ("Frozen", 2), ("Loose", 1)])
        cls, names = TYPES[kind]
        vals = [self.value() for _ in names]
        boom = Boom(self, 1 + r.draw(4) if r.chance(300) else 0, r.pick([Injected, InjectedInterrupt]))
        self.ev("construct", kind, "fails" if boom.fail_at else "")
        want = {n: self.stored(kind, n, v) for n, v in zip(names, vals)}
        self.depth += 1
        outer = getattr(HOOK.local, "boom", None)
        try:
            if kind == "Data":
                HOOK.local.boom = boom
                obj = cls(*vals)
            elif kind == "Frozen":
                obj = cls(*vals)
            else:
                obj = cls(*vals, boom)
        except (Injected, InjectedInterrupt):
            # the object escaped, construction is over
            leaked = boom.obj
            if leaked is not None and type(leaked) is cls and kind != "Loose":
                rec = Rec(leaked, "Leaked", fields(leaked), vals)
                self.assign(rec)
                if len(self.w.recs) < 14:
                    self.w.recs.append(rec)
            return
        except ValueError as e:
            r.check(None in want.values(), "constructor refused", f"{kind}: {e}")
            r.fault("constructor given an incompatible container")
            return
        finally:
            HOOK.local.boom = outer
            self.depth -= 1
        r.check(None not in want.values(), "constructor accepted an incompatible container", kind)
        self.spoil(vals)
        self.add(obj, kind, want, vals, "a constructor")

    def spoil(self, values):
        """The caller goes on using the containers it passed."""
        for v in values:
            if isinstance(v, nnx.Container) and self.r.chance(500):
                v.value = "spoiled"

    def inside_constructor(self):
        """Called between two assignments of a constructor."""
        r = self.r
        if self.depth > 3 or not r.chance(300):
            return
        k = r.weighted([("assign", 4), ("replace", 2), ("construct", 2)])
        if k == "assign":
            if self.w.recs:
                self.assign(r.pick(self.w.recs))
        else:
            getattr(self, k)()

    def assign(self, rec=None):
        r = self.r
        if not self.w.recs and rec is None:
            return
        rec = rec or r.pick(self.w.recs)
        if rec.kind == "Loose":
            name = r.pick(["x", "y"])
            self.ev("assign", rec.kind, name)
            setattr(rec.obj, name, r.draw(6))
            self.w.changed += 1
            return
        names = sorted(rec.want)
        how = r.weighted([("set", 6), ("new", 2), ("private", 2), ("del", 2), ("same", 1), ("init", 1)])
        self.ev("try", how, rec.kind)
        if how == "new":
            fn = lambda: setattr(rec.obj, "brand_new", 1)  # noqa: E731
        elif how == "private":
            n = r.pick(["_pytree__is_mutable", "_pytree__initializing", "_pytree__class_is_mutable"])
            fn = lambda: setattr(rec.obj, n, True)  # noqa: E731
        elif how == "init" and rec.kind in ("Plain", "Derived", "Data"):
            fn = lambda: rec.obj.__init__(*[7 for _ in TYPES[rec.kind][1]])  # noqa: E731
        else:
            n = r.pick(names or ["x"])
            if how == "del":
                fn = lambda: delattr(rec.obj, n)  # noqa: E731
            elif how == "same":
                fn = lambda: setattr(rec.obj, n, getattr(rec.obj, n))  # noqa: E731
            else:
                v = self.value()
                fn = lambda: setattr(rec.obj, n, v)  # noqa: E731
        try:
            fn()
        except (AttributeError, ValueError):
            self.w.refused += 1
        else:
            raise Violation("assignment succeeded", f"{self.name}: {how} on {rec.kind}")
        self.verify(rec, f"after a refused {how}")

    def replace(self):
        r = self.r
        if not self.w.recs:
            return
        rec = r.pick(self.w.recs)
        if rec.kind in ("Loose", "Leaked"):
            return
        names = sorted(rec.want)
        how = r.weighted([("ok", 6), ("unknown", 1), ("incompatible", 2), ("post", 1)])
        chosen = sorted({r.pick(names) for _ in range(1 + r.draw(2))})
        if rec.kind == "TrainState":
            chosen = [r.pick(["step", "tag"])]
        kw, want = {}, dict(rec.want)
        refuse = False
        for n in chosen:
            cur = vars(rec.obj)[n]
            v = self.value() if rec.kind != "TrainState" else r.draw(6)
            if how == "ok" and isinstance(cur, nnx.Container) and isinstance(v, nnx.Container):
                v = v.value
            kw[n] = v
            if isinstance(cur, nnx.Container):
                if isinstance(v, nnx.Container):
                    if v.is_equivalent(cur):
                        want[n] = fpc(v)
                    else:
                        refuse = True
                else:
                    want[n] = fpc(cur.replace(value=v))
            else:
                want[n] = self.stored(rec.kind, n, v)
        if how == "unknown":
            kw["there_is_no_such_field"] = 1
            refuse = True
        boom = Boom(self, 1, r.pick([Injected, InjectedInterrupt])) if how == "post" and rec.kind == "Data" else None
        self.ev("replace", rec.kind, chosen, how, refuse)
        outer = getattr(HOOK.local, "boom", None)
        HOOK.local.boom = boom
        try:
            new = rec.obj.replace(**kw)
        except (Injected, InjectedInterrupt):
            r.check(boom is not None, "replace failed", rec.kind)
        except (ValueError, TypeError) as e:
            r.check(refuse, "replace refused", f"{rec.kind} {chosen} {how}: {e}")
            r.fault("replace refused")
        else:
            r.check(not refuse and boom is None, "replace accepted a wrong request", f"{rec.kind} {chosen} {how}")
            r.check(new is not rec.obj and type(new) is type(rec.obj), "replace returned its receiver", rec.kind)
            self.spoil(kw.values())
            self.add(new, rec.kind, want, (rec, kw), f"replace {chosen}")
        finally:
            HOOK.local.boom = outer
        self.verify(rec, "after it was replaced")

    def rebuild(self):
        r = self.r
        if not self.w.recs:
            return
        rec = r.pick(self.w.recs)
        if rec.kind in ("Loose", "Leaked"):
            return
        hows = ["map", "flatten", "failing map", "copy"]
        if rec.kind != "TrainState":
            hows += ["deepcopy", "pickle"]
        how = r.pick(hows)
        self.ev(how, rec.kind)
        want = rec.want
        if how == "map":
            new = jax.tree_map(lambda x: x, rec.obj)
        elif how == "flatten":
            leaves, treedef = jax.tree_util.tree_flatten(rec.obj)
            new = jax.tree_util.tree_unflatten(treedef, leaves)
        elif how == "failing map":
            n = [1 + r.draw(3)]

            def f(x):
                n[0] -= 1
                if n[0] == 0:
                    r.fault("mapped function fails")
                    raise Injected("map")
                self.assign(rec)
                return x

            try:
                new = jax.tree_map(f, rec.obj)
            except Injected:
                return self.verify(rec, "after a failed tree_map")
        elif how == "copy":
            new = copy.copy(rec.obj)
        elif how == "deepcopy":
            new = copy.deepcopy(rec.obj)
        else:
            new = pickle.loads(pickle.dumps(rec.obj))
        if how in ("deepcopy", "pickle") and any(self.has_id(v) for v in want.values()):
            want = fields(new)
        self.add(new, rec.kind, want, (rec,), how)
        self.verify(rec, f"after {how}")

    def has_id(self, v):
        return isinstance(v, tuple) and ((len(v) == 2 and v[0] == "id") or any(self.has_id(i) for i in v))

    def restore(self):
        """Restore from an intact or damaged state dict."""
        r = self.r
        if not self.w.recs:
            return
        rec = r.pick(self.w.recs)
        if rec.kind in ("Loose", "Leaked", "TrainState"):
            return
        d = serialization.to_state_dict(rec.obj)
        damage = r.pick(["none", "none", "missing", "unknown"])
        if damage == "missing" and d:
            d.pop(r.pick(sorted(d)))
        elif damage == "unknown":
            d["there_is_no_such_field"] = 1
        else:
            damage = "none"
        self.ev("restore", rec.kind, damage)
        try:
            new = serialization.from_state_dict(rec.obj, d)
        except ValueError:
            r.check(damage != "none", "restore refused", rec.kind)
            r.fault(f"restore of a dict with a field {damage}")
        else:
            r.check(damage == "none", "restore of a damaged dict", f"{rec.kind} {damage}")
            r.check(new is not rec.obj, "restore returned the target", rec.kind)
            self.add(new, rec.kind, rec.want, (rec,), "restore")
        self.verify(rec, "after a restore from it")

    def gradients(self):
        r = self.r
        recs = [c for c in self.w.recs if c.kind == "TrainState"]
        if not recs:
            obj = r.pick(self.ts)
            self.w.recs.append(Rec(obj, "TrainState", fields(obj)))
            return
        rec = r.pick(recs)
        self.ev("apply_gradients")
        g = rec.obj.params
        fails = r.chance(300)
        try:
            with sched.atomic():
                new = rec.obj.apply_gradients(g, **({"there_is_no_such_field": 1} if fails else {}))
        except ValueError:
            r.check(fails, "apply_gradients refused", "")
            r.fault("apply_gradients refused")
        else:
            r.check(not fails, "apply_gradients accepted an unknown field", "")
            self.add(new, "TrainState", fields(new), (rec,), "apply_gradients")
        self.verify(rec, "after apply_gradients")

    def main(self, n):
        r = self.r
        for _ in range(n):
            r.step()
            k = r.weighted([("construct", 6), ("assign", 6), ("replace", 6), ("rebuild", 4), ("restore", 2),
                            ("gradients", 1)])
            getattr(self, k)()
            if self.w.recs:
                self.verify(r.pick(self.w.recs), "during the run")


ARRAYS = [jnp.full((2,), i, jnp.float32) for i in range(6)]
_ts = []


def train_states():
    if not _ts:
        m = nnx.Linear(1, 2, ctx=nnx.context(0))
        params, moduledef = m.partition(nnx.Param)
        for tx in (optax.sgd(0.5), optax.adam(0.25)):
            _ts.append(nnx.TrainState(moduledef, params=params, tx=tx, tag=nnx.Node(1)))
    return _ts


def run(r):
    ts = train_states()
    world = World()
    n = 1 if r.chance(250) else 2 + r.draw(3)
    actors = [Actor(r.sub(f"t{i}"), f"t{i}", world, ts) for i in range(n)]
    if n == 1:
        r.ran("t0")
        actors[0].main(10 + r.draw(15))
    else:
        sched.threads(r, [(a.name, lambda a=a: a.main(4 + a.r.draw(8))) for a in actors])
    last = Actor(r, "main", world, ts)
    for rec in list(world.recs):
        last.verify(rec, "at the end")
        if rec.kind != "Loose":
            last.assign(rec)
    r.nontrivial = world.refused >= 4
    r.state(n, tuple(sorted(c.kind for c in world.recs)))
