"""C02: state dicts go through a storage that loses, renames, tears and mixes entries.

Objects are nests of Pytrees (plain, derived, dataclass, frozen, mutable, with and
without declared containers), lists, tuples, named tuples, dicts, optimizer states,
TrainStates and a user type with hooks of its own that may fail. Their state dicts (or
bytes) are put into a simulated store; reads come back intact, damaged in one or more
places, from a different save, or truncated. Restores run one after another or in
simulated threads. The reference decides from the target and the dict alone whether
the restore has to be refused, and what it has to yield otherwise.
"""
import collections
from typing import Any

import jax
import jax.numpy as jnp
import numpy as np
import optax
from flax import serialization

from dst import sched
from dst.core import Injected, Violation
from dst.model import nnx


# ------------------------------------------------------------------ types
class Plain(nnx.Pytree):
    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


class Derived(Plain):
    def __init__(self, tag, **kw):
        self.tag = tag
        super().__init__(**kw)


class Loose(nnx.Pytree, mutable=True):
    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


@nnx.dataclass
class Data(nnx.Pytree):
    a: Any
    p: Any = nnx.param_field(default=1.0)
    n: Any = nnx.node_field(default=2.0)
    s: Any = nnx.static_field(default=3)

    def __post_init__(self):
        HOOK.hit("post init")


@nnx.dataclass(frozen=True)
class Frozen(nnx.Pytree):
    a: Any = nnx.node_field()
    b: Any = nnx.field(default=2)


Pair = collections.namedtuple("Pair", ["left", "right"])
Unit = collections.namedtuple("Unit", [])


class Vault:
    """A user type that is a node, with serialization hooks of its own that may fail."""

    def __init__(self, a, b):
        self.a, self.b = a, b


def _vault_to(v):
    return {"a": serialization.to_state_dict(v.a), "b": serialization.to_state_dict(v.b)}


def _vault_from(v, sd):
    if set(sd) != {"a", "b"}:
        raise ValueError("vault keys")
    HOOK.hit("vault")
    a = serialization.from_state_dict(v.a, sd["a"], name="a")
    HOOK.hit("vault")
    return Vault(a, serialization.from_state_dict(v.b, sd["b"], name="b"))


serialization.register_serialization_state(Vault, _vault_to, _vault_from)
jax.tree_util.register_pytree_node(Vault, lambda v: ((v.a, v.b), None), lambda _, c: Vault(*c))
nnx.register_node_type(Vault)


class Hook:
    """Fails the n-th time user code runs during a restore."""

    def __init__(self):
        import threading

        self.local = threading.local()

    def arm(self, n):
        self.local.left, self.local.fired = n, False

    def hit(self, where):
        left = getattr(self.local, "left", 0)
        if left:
            self.local.left = left - 1
            if left == 1:
                self.local.fired = True
                raise Injected(where)

    def disarm(self):
        self.local.left = 0
        return getattr(self.local, "fired", False)


HOOK = Hook()
WRAPS = {"Param": nnx.Param, "BatchStat": nnx.BatchStat, "Node": nnx.Node, "TreeNode": nnx.TreeNode}


# ------------------------------------------------------------------ the reference
def is_node(v):
    """Is this field, as stored, part of the object's state?"""
    if isinstance(v, nnx.Container):
        return not isinstance(v, nnx.Static)
    return isinstance(v, (jax.Array, np.ndarray, nnx.Pytree, nnx.State, nnx.Pure, Vault))


def raw(obj):
    """Fields as stored."""
    return {k: v for k, v in vars(obj).items() if not k.startswith("_pytree__")}


def inner(v):
    return vars(v)["value"] if isinstance(v, nnx.Container) else v


def is_nt(v):
    return isinstance(v, tuple) and hasattr(v, "_fields")


def children(v):
    """[(key, child)] of a value the state dict descends into, else None."""
    if isinstance(v, nnx.Pytree):
        return [(k, inner(f)) for k, f in raw(v).items() if is_node(f)]
    if isinstance(v, Vault):
        return [("a", v.a), ("b", v.b)]
    if is_nt(v):
        return [(k, getattr(v, k)) for k in v._fields]
    if type(v) in (list, tuple):
        return [(str(i), c) for i, c in enumerate(v)]
    if type(v) is dict:
        return [(str(k), c) for k, c in v.items()]
    return None


def ser(v):
    kids = children(v)
    return v if kids is None else {k: ser(c) for k, c in kids}


class Reject(Exception):
    """This dict has to be refused."""


class Unclear(Exception):
    """Nothing in this place of the dict is missing or unknown; only failing safely is required."""


def fp(v):
    """Fingerprint of a value, fields as stored with their containers."""
    if isinstance(v, nnx.Container):
        return (type(v).__name__, meta(v), fp(inner(v)))
    if isinstance(v, nnx.Pytree):
        return (type(v).__name__, tuple((k, fp(f)) for k, f in sorted(raw(v).items())))
    if isinstance(v, Vault):
        return ("Vault", (("a", fp(v.a)), ("b", fp(v.b))))
    if isinstance(v, (jax.Array, np.ndarray, np.generic)):
        a = np.asarray(v)
        return ("array", str(a.dtype), a.shape, a.tobytes())
    if isinstance(v, nnx.State):
        return ("State", tuple((k, fp(c)) for k, c in v.items()))
    if isinstance(v, nnx.ModuleDef):
        return ("def", hash(v))
    if isinstance(v, dict):
        return ("dict", tuple(sorted((repr(k), fp(c)) for k, c in v.items())))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(fp(c) for c in v))
    if v is None or isinstance(v, (int, float, str, bool, bytes, complex)):
        return (type(v).__name__, repr(v))
    return ("object", id(v))


def meta(v):
    return tuple(sorted((k, repr(m)) for k, m in vars(v).items() if k != "value"))


def want(v, sd):
    """Fingerprint of v restored from sd, or Reject."""
    kids = children(v)
    if kids is None:
        return fp(sd)
    if not isinstance(sd, dict):
        raise Reject("not a dict") if kids else Unclear("an empty structure stored as a leaf")
    keys = [k for k, _ in kids]
    if set(keys) - set(sd):
        raise Reject("missing")
    if set(sd) - set(keys) and type(v) is not dict:
        raise Reject("unknown")
    new, unclear = {}, None
    for k, c in kids:
        try:
            new[k] = want(c, sd[k])
        except Unclear as e:
            unclear = e  # a clear reason elsewhere comes first
    if unclear:
        raise unclear
    if isinstance(v, nnx.Pytree):
        fields = {}
        for k, f in raw(v).items():
            if not is_node(f):
                fields[k] = fp(f)
            elif isinstance(f, nnx.Container):
                fields[k] = (type(f).__name__, meta(f), new[k])
            else:
                fields[k] = new[k]
        return (type(v).__name__, tuple(sorted(fields.items())))
    if isinstance(v, Vault):
        return ("Vault", tuple(sorted(new.items())))
    if type(v) is dict:
        return ("dict", tuple(sorted((repr(k), new[str(k)]) for k in v)))
    return (type(v).__name__, tuple(new[k] for k in keys))


# ------------------------------------------------------------------ generation
class Gen:
    """Builds values; the same choices with another salt give the same structure."""

    def __init__(self, r):
        self.r = r
        self.types = collections.Counter()

    def shape(self, depth):
        """A description of a value (drawn once, built often)."""
        r = self.r
        if depth <= 0:
            kinds = [("leaf", 4), ("state", 1)]
        else:
            kinds = [("leaf", 3), ("state", 1), ("plain", 3), ("derived", 1), ("loose", 1), ("data", 2), ("frozen", 1),
                     ("list", 2), ("tuple", 1), ("pair", 1), ("unit", 1), ("dict", 2), ("vault", 1), ("opt", 1),
                     ("ts", 1), ("empty", 1)]
        k = r.weighted(kinds)
        self.types[k] += 1
        if k == "leaf":
            return (k, r.draw(3))
        if k == "state":
            return (k, 1 + r.draw(2))
        if k in ("plain", "derived", "loose"):
            fields = []
            for i in range(1 + r.draw(4)):
                w = r.pick(["raw", "raw", "Param", "TreeNode", "Node", "BatchStat", "Static", "const"])
                fields.append((f"{'xyzw'[i]}", w, self.shape(depth - 1) if w not in ("Static", "const") else None))
            return (k, tuple(fields))
        if k == "data":
            return (k, tuple(self.shape(depth - 1) for _ in range(3)))
        if k == "frozen":
            return (k, (self.shape(depth - 1), self.shape(0)))
        if k in ("list", "tuple"):
            return (k, tuple(self.shape(depth - 1) for _ in range(r.draw(4))))
        if k in ("pair", "vault"):
            return (k, (self.shape(depth - 1), self.shape(depth - 1)))
        if k == "dict":
            keys = r.pick([("a",), ("a", "b"), (1, 2), ("a", "3"), ()])
            return (k, tuple((key, self.shape(depth - 1)) for key in keys))
        if k == "opt":
            return (k, r.draw(4))
        if k == "ts":
            return (k, (r.draw(4), r.chance(500), self.shape(depth - 1)))
        return (k,)

    def vary(self, d):
        """A similar description: one entry more, less or other."""
        r = self.r
        if d[0] in ("list", "tuple") and r.chance(500):
            items = list(d[1])
            if items and r.chance(500):
                items.pop(r.draw(len(items)))
            else:
                items.append(("leaf", 0))
            return (d[0], tuple(items))
        if d[0] in ("plain", "derived", "loose") and len(d[1]) and r.chance(500):
            fields = list(d[1])
            i = r.draw(len(fields))
            if r.chance(500) and len(fields) > 1:
                fields.pop(i)
            else:
                n, w, c = fields[i]
                fields[i] = ("v", w, c)
            return (d[0], tuple(fields))
        if d[0] == "opt":
            return (d[0], r.draw(4))
        if d[0] in ("list", "tuple", "pair", "vault", "data") and d[1]:
            items = list(d[1])
            i = r.draw(len(items))
            items[i] = self.vary(items[i])
            return (d[0], tuple(items))
        if d[0] in ("plain", "derived", "loose"):
            fields = list(d[1])
            for i, (n, w, c) in enumerate(fields):
                if c is not None:
                    fields[i] = (n, w, self.vary(c))
                    break
            return (d[0], tuple(fields))
        return d


LEAF_SHAPES = [(), (2,), (1, 2)]
TXS = [optax.sgd(0.5), optax.sgd(0.5, momentum=0.5), optax.adam(0.5), optax.chain(optax.clip(1.0), optax.adam(0.5))]


class Builder:
    def __init__(self, salt):
        self.n = salt * 1000

    def arr(self, shape=(), jax_=True):
        self.n += 1
        a = np.full(shape, self.n, np.float32)
        return jnp.asarray(a) if jax_ else a

    def state(self, n):
        return nnx.State({f"m/p{i}": nnx.Param(self.arr()) for i in range(n)})

    def build(self, d, boxed=False):
        """boxed: the value is stored in a container, so it may be of any kind."""
        k = d[0]
        if k == "leaf":
            return self.arr(LEAF_SHAPES[d[1]], d[1] != 1)
        if k == "state":
            return self.state(d[1])
        if k in ("plain", "derived", "loose"):
            kw = {n: self.field(w, c) for n, w, c in d[1]}
            if k == "derived":
                return Derived("t", **kw)
            return (Plain if k == "plain" else Loose)(**kw)
        if k == "data":
            a, p, n = (self.build(c) for c in d[1])
            return Data(a, p, n, 7)
        if k == "frozen":
            return Frozen(self.build(d[1][0]), self.build(d[1][1]))
        if k == "list":
            return [self.build(c) for c in d[1]]
        if k == "tuple":
            return tuple(self.build(c) for c in d[1])
        if k == "pair":
            return Pair(*(self.build(c) for c in d[1]))
        if k == "unit":
            return Unit()
        if k == "vault":
            return Vault(*(self.build(c) for c in d[1]))
        if k == "dict":
            return {key: self.build(c) for key, c in d[1]}
        if k == "opt":
            # real moments: one update away from the initial state
            params = self.state(1)
            tx = TXS[d[1]]
            s = tx.init(params)
            return tx.update(jax.tree_map(jnp.ones_like, params), s, params)[1] if d[1] != 1 else s
        if k == "ts":
            i, step, extra = d[1]
            ts = nnx.TrainState(DEF, params=self.state(2), tx=TXS[i], extra=nnx.TreeNode(self.build(extra)))
            self.n += 1
            return ts.replace(step=jnp.asarray(self.n)) if step else ts
        return Plain()

    def field(self, w, c):
        self.n += 1
        if w == "const":
            return "const"
        if w == "Static":
            return nnx.Static("s", )
        v = self.build(c)
        if w == "raw":
            return v
        if w in ("Param", "BatchStat"):
            return WRAPS[w](v, note="n")
        return WRAPS[w](v)


class _Net(nnx.Module):
    def __init__(self):
        self.w = nnx.Param(1)


DEF = _Net().get_module_def()


# ------------------------------------------------------------------ the store
def places(sd, path=()):
    """Every dict within a state dict."""
    if isinstance(sd, dict):
        yield sd, path
        for k in sorted(sd, key=str):
            yield from places(sd[k], (*path, k))


def deep(sd):
    """A copy of the dicts of a state dict; leaves are shared."""
    return {k: deep(v) for k, v in sd.items()} if isinstance(sd, dict) else sd


def damage(r, sd, other):
    """Damages one entry of sd; returns what was done."""
    spots = [(d, p) for d, p in places(sd)]
    d, p = spots[r.draw(len(spots))]
    kind = r.pick(["lose", "lose", "add", "rename", "tear", "graft", "leaf", "swap", "empty", "lose all"])
    keys = sorted(d, key=str)
    if kind == "add" or not keys:
        k = r.pick(["zz", "0", "a", "value", "9"])
        if k in d:
            k = "zz"
        d[k] = r.pick([np.float32(5), {}, {"0": np.float32(1)}])
        return f"add {'/'.join(p)} {k}"
    k = keys[r.draw(len(keys))]
    if kind == "lose":
        del d[k]
    elif kind == "rename":
        new = r.pick([k + "_", k.upper() if k.upper() != k else k + "0", "10", k[:-1] or "_"])
        if new in d:
            new = k + "__"
        d[new] = d.pop(k)
    elif kind == "tear":
        # the entry came back as something else altogether
        if isinstance(d[k], dict) and d[k]:
            d[k] = r.pick([None, np.float32(0), 7, "torn", np.zeros((2,), np.float32), list(d[k].values())])
        else:
            d[k] = np.float32(-1)
    elif kind == "graft":
        src = [v for v, _ in places(other)]
        d[k] = deep(src[r.draw(len(src))])
    elif kind == "leaf":
        d[k] = {"value": d[k]} if not isinstance(d[k], dict) else next(iter(d[k].values()), np.float32(0))
    elif kind == "swap":
        k2 = keys[r.draw(len(keys))]
        d[k], d[k2] = d[k2], d[k]
    elif kind == "empty":
        d[k] = {}
    else:
        for key in keys:
            del d[key]
    return f"{kind} {'/'.join(p)} {k}"


def msgpackable(v):
    kids = children(v)
    if kids is None:
        return isinstance(v, (jax.Array, np.ndarray, int, float))
    return all(msgpackable(c) for _, c in kids)


class World:
    def __init__(self, r):
        self.r = r
        g = Gen(r)
        self.descs = []
        while len(self.descs) < 1 + r.draw(2):
            d = g.shape(3)
            if d[0] not in ("leaf", "state"):
                self.descs.append(d)
        if r.chance(400):
            self.descs.append(g.vary(self.descs[0]))
        # several objects of each structure, with values of their own
        self.objs = [Builder(1 + i).build(d) for i, d in enumerate(self.descs + self.descs)]
        self.fps = [fp(o) for o in self.objs]
        self.saves = []
        self.types = g.types

    def check(self, what):
        for i, (o, f) in enumerate(list(zip(self.objs, self.fps))):
            if fp(o) != f:
                raise Violation("target changed", f"object {i} after {what}")
        for i, (sd, f, _) in enumerate(list(self.saves)):
            if fp(sd) != f:
                raise Violation("state dict changed", f"save {i} after {what}")


def op_save(w, rr):
    i = rr.draw(len(w.objs))
    sd = rr.must("to_state_dict", serialization.to_state_dict, w.objs[i])
    if fp(sd) != fp(ser(w.objs[i])):
        raise Violation("saved dict", f"object {i}: {sd} instead of {ser(w.objs[i])}")
    # taken apart from the object: the store keeps its own copy
    f = fp(sd)  # may be preempted
    if len(w.saves) < 6:
        w.saves.append((sd, f, i))
    rr.ev("save", i)


def restore(w, rr, i, sd, what, arm=0):
    target = w.objs[i]
    before = fp(sd)
    try:
        expect = want(target, sd)
    except (Reject, Unclear) as e:
        expect = e
    HOOK.arm(arm)
    try:
        ok, got = rr.attempt(serialization.from_state_dict, target, sd)
    finally:
        fired = HOOK.disarm()
    rr.ev("restore", i, what, "armed" if fired else "", "ok" if ok else type(got).__name__)
    if fp(sd) != before:
        raise Violation("state dict changed", f"by restoring {what} into object {i}")
    if fired:
        rr.fault("a restore hook failed")
        rr.check(not ok, "hook failure swallowed", what)
        rr.check(isinstance(got, Injected), f"restore:{type(got).__name__}", lambda: str(got))
    elif isinstance(expect, Unclear):
        rr.probe("unclear")
    elif isinstance(expect, Reject):
        rr.probe(f"rejected: {expect}")
        if ok:
            raise Violation(f"damaged dict accepted: {expect}", f"{what} into object {i}: {sd}")
    else:
        if not ok:
            raise Violation(f"intact dict rejected:{type(got).__name__}", f"{what} into object {i}: {got}") from got
        if fp(got) != expect:
            raise Violation("restored object is wrong", f"{what} into object {i}: {fp(got)} instead of {expect}")
        rr.probe("restored")
        usable(rr, got)
    w.check(f"restore of {what}")
    return got if ok else None


def usable(rr, obj):
    """The restored object is a finished one: it flattens, saves again, and stays immutable."""
    if not isinstance(obj, nnx.Pytree):
        return
    f = fp(obj)
    sd = rr.must("saving a restored object", serialization.to_state_dict, obj)
    if fp(sd) != fp(ser(obj)):
        raise Violation("restored object saves wrong", "")
    leaves, tree = jax.tree_util.tree_flatten(obj)
    if fp(jax.tree_util.tree_unflatten(tree, leaves)) != f:
        raise Violation("restored object flattens wrong", "")
    if not isinstance(obj, Loose):
        for k in raw(obj):
            try:
                setattr(obj, k, 1)
            except AttributeError:
                continue
            raise Violation("restored object is mutable", k)


def op_restore(w, rr):
    if not w.saves:
        return op_save(w, rr)
    stored, _, source = rr.pick(w.saves)
    sd = deep(stored)
    i = source if rr.chance(600) else rr.draw(len(w.objs))
    what = []
    other = rr.pick(w.saves)[0]
    for _ in range(rr.pick([0, 1, 1, 1, 1, 2, 3])):
        what.append(damage(rr, sd, other))
        rr.fault("store: " + what[-1].split(" ")[0])
    arm = 1 + rr.draw(3) if rr.chance(150) else 0
    restore(w, rr, i, sd, "; ".join(what) or "intact", arm)
    # the save it came from is still good
    if what and rr.chance(300):
        restore(w, rr, source, stored, "intact again")


def op_bytes(w, rr):
    """The dict is stored as bytes; the file may come back short."""
    i = rr.draw(len(w.objs))
    if not msgpackable(w.objs[i]):
        return op_save(w, rr)
    data = rr.must("to_bytes", serialization.to_bytes, w.objs[i])
    j = i if rr.chance(700) else rr.draw(len(w.objs))
    if rr.chance(500):
        cut = rr.draw(len(data))
        rr.fault("store: truncated file")
        ok, got = rr.attempt(serialization.from_bytes, w.objs[j], data[:cut])
        rr.ev("truncated", i, j, cut, "ok" if ok else type(got).__name__)
        rr.check(not ok, "truncated file accepted", lambda: f"{cut} of {len(data)} bytes")
        w.check("truncated bytes")
        return
    try:
        expect = want(w.objs[j], jax.tree_map(np.asarray, ser(w.objs[i])))
    except (Reject, Unclear) as e:
        expect = e
    ok, got = rr.attempt(serialization.from_bytes, w.objs[j], data)
    rr.ev("bytes", i, j, "ok" if ok else type(got).__name__)
    if isinstance(expect, Reject):
        rr.check(not ok, f"damaged dict accepted: {expect}", f"bytes of {i} into {j}")
    elif not isinstance(expect, Unclear):
        if not ok:
            raise Violation(f"intact dict rejected:{type(got).__name__}", f"bytes of {i} into {j}: {got}") from got
        rr.check(fp(got) == expect, "restored object is wrong", lambda: f"{fp(got)} instead of {expect}")
    w.check("bytes")


def op_adopt(w, rr):
    """Training goes on with a restored object: it becomes a target itself."""
    if not w.saves:
        return op_save(w, rr)
    sd, _, source = rr.pick(w.saves)
    got = restore(w, rr, source, deep(sd), "intact")
    if got is not None and len(w.objs) < 8:
        w.fps.append(fp(got))
        w.objs.append(got)


OPS = [(op_save, 2), (op_restore, 8), (op_bytes, 1), (op_adopt, 1)]


def history(w, rr, n):
    for _ in range(n):
        rr.weighted(OPS)(w, rr)
        rr.step()
        sched.point("between operations")


def run(r):
    w = World(r)
    for k in w.types:
        r.probe(f"structure: {k}")
    op_save(w, r)
    if r.chance(250):
        n = 2 + r.draw(2)

        def body(rr):
            return lambda: history(w, rr, 2 + rr.draw(4))

        sched.threads(r, [(f"t{i}", body(r.sub(f"w{i}"))) for i in range(n)])
    else:
        history(w, r, 3 + r.draw(8))
    # nothing that failed on the way has spoiled an intact dict
    for sd, _, source in w.saves:
        got = restore(w, r, source, sd, "intact at the end")
        r.check(got is not None, "intact dict rejected", f"object {source}")
    r.nontrivial = bool(w.saves) and len(w.objs) > 1

