"""C17: threads register node types and define classes while others use them.

Simulated threads define plain, Pytree, Variable and Node classes (all of the same
name), register plain ones as node types, and look at instances of every class through
modules and pytrees, being preempted inside nnx. A class counts as registered from the
return of the call that registered it; a look that overlaps the registration may see
either answer, every later one in any thread has to see a node.
"""
import jax
import jax.numpy as jnp
import numpy as np
from flax import serialization

from dst import sched
from dst.core import Injected, InjectedInterrupt, Violation
from dst.model import nnx
from nnx.nodes import is_node, register_node_type


class Unit(nnx.Module):
    pass


class Holder(nnx.Pytree):
    def __init__(self, v):
        self.v = v
        self.zero = nnx.Node(0)


class Refuses:
    """Base whose subclass definitions fail after the library has seen them."""

    def __init_subclass__(cls, fail=None, **kw):
        super().__init_subclass__(**kw)
        if fail is not None:
            raise fail("class definition")


class PyBase(Refuses, nnx.Pytree):
    pass


class VarBase(Refuses, nnx.Variable):
    pass


class Rec:
    """A class: 0 not registered, 1 being registered, 2 registered."""

    def __init__(self, idx, kind, cls, parent=None):
        self.idx, self.kind, self.cls, self.parent = idx, kind, cls, parent
        self.own = 0 if kind == "plain" else 2

    def status(self):
        # instances of a class are instances of its bases
        return max(self.own, self.parent.status() if self.parent is not None else 0)

    def instance(self, n):
        if self.kind == "plain":
            o = self.cls()
            o.n = n
            return o
        if self.kind == "pytree":
            return self.cls(n)
        return self.cls(jnp_arr(n))

    def __repr__(self):
        return f"{self.kind}{self.idx}"


_arr = {}


def jnp_arr(n):
    if n not in _arr:
        _arr[n] = jnp.full((1,), n, jnp.float32)
    return _arr[n]


for _n in range(8):
    jnp_arr(_n)


class World:
    def __init__(self):
        self.recs = []
        self.n = 0
        self.looks = 0
        self.registered = 0
        # a module that every thread looks at, with instances made before anything is registered
        self.shared = []


class Actor:
    def __init__(self, r, name, w):
        self.r, self.name, self.w = r, name, w

    def ev(self, *what):
        self.r.ev(f"[{self.name}]", *what)

    def add(self, rec):
        self.w.recs.append(rec)
        return rec

    # ---- definitions
    def define(self):
        r = self.r
        kind = r.weighted([("plain", 5), ("pytree", 2), ("variable", 2), ("node", 1), ("sub", 2)])
        idx = self.w.n
        self.w.n += 1
        fails = kind in ("pytree", "variable") and r.chance(200)
        fail = r.pick([Injected, InjectedInterrupt]) if fails else None
        self.ev("define", kind, idx, "fails" if fails else "")
        parent = None
        try:
            if kind == "plain":
                cls = type("T", (), {})
            elif kind == "sub":
                parents = [c for c in self.w.recs if c.kind == "plain"]
                if not parents:
                    return
                parent = r.pick(parents)
                cls = type("T", (parent.cls,), {})
                kind = "plain"
            elif kind == "pytree":
                def __init__(self, v):
                    self.a = nnx.Param(jnp_arr(v))
                    self.b = v

                if fails:
                    type(PyBase)("T", (PyBase,), {"__init__": __init__}, fail=fail)
                cls = type(nnx.Pytree)("T", (nnx.Pytree,), {"__init__": __init__})
            else:
                base = nnx.Variable if kind == "variable" else nnx.Node
                if fails:
                    type(VarBase)("T", (VarBase,), {}, fail=fail)
                cls = type(base)("T", (base,), {})
        except (Injected, InjectedInterrupt) as e:
            r.fault(f"class definition fails by {type(e).__name__}")
            return
        rec = self.add(Rec(idx, kind, cls, parent))
        if kind != "plain":
            self.w.registered += 1
        if r.chance(600):
            self.look(rec)

    def register(self):
        r = self.r
        plain = [c for c in self.w.recs if c.kind == "plain"]
        if not plain:
            return self.define()
        rec = r.pick(plain)
        if r.chance(400):
            self.look(rec)
        self.ev("register", repr(rec))
        if rec.own == 0:
            rec.own = 1
        register_node_type(rec.cls)
        rec.own = 2
        self.w.registered += 1
        self.ev("registered", repr(rec))
        self.look(rec)

    # ---- looks
    def judge(self, rec, before, got, how):
        """`got` says whether the instance was treated as a node."""
        after = rec.status()
        self.w.looks += 1
        if before == 2:
            self.r.check(got is True, "registered type is not a node", lambda: f"{self.name}: {rec} in {how}")
        elif after == 0:
            self.r.check(got is False, "unregistered type is a node", lambda: f"{self.name}: {rec} in {how}")

    def look(self, rec=None, obj=None):
        r = self.r
        if rec is None:
            if not self.w.recs:
                return
            rec = r.pick(self.w.recs)
        o = obj if obj is not None else rec.instance(r.draw(8))
        how = r.weighted([("is_node", 3), ("state", 3), ("partition", 3), ("pytree", 3), ("pop", 1), ("filter", 1),
                          ("clone", 1), ("leaves", 2), ("dict", 1), ("saved", 1), ("paths", 2), ("mapped", 3)])
        before = rec.status()
        self.ev("look", repr(rec), how)
        if how == "mapped":
            if rec.kind == "plain":
                return
            # jax sees into instances of the class: they are nodes of its trees as well
            m = Unit()
            m.v = o
            tree = r.pick([lambda: Holder(o), lambda: m.get_state(), lambda: [o]])()
            want = [a for a in (vars(o)["value"] if rec.kind != "pytree" else o.a,)]
            new = jax.tree_util.tree_map(lambda a: (a, "seen"), tree)
            got = [a for a in jax.tree_util.tree_leaves(new) if isinstance(a, jax.Array)]
            r.check(any(equal(g, w) for g in got for w in want), "registered type is not a node",
                    lambda: f"{self.name}: {rec} in tree_map: {jax.tree_util.tree_leaves(tree)}")
            leaves = jax.tree_util.tree_leaves(tree)
            self.w.looks += 1
            return r.check(not any(isinstance(a, rec.cls) for a in leaves), "registered type is not a node",
                           lambda: f"{self.name}: {rec} is a leaf: {leaves}")
        if how == "is_node":
            return self.judge(rec, before, is_node(o), how)
        if how in ("pytree", "leaves", "saved", "paths"):
            h = Holder(o)
            if how == "paths":
                flat, treedef = jax.tree_util.tree_flatten_with_path(h)
                got = {getattr(p[0], "name", p[0]) for p, _ in flat}
                r.check("zero" in got and got <= {"v", "zero"}, "leaf under another path", lambda: f"{rec}: {flat}")
                plain, plaindef = jax.tree_util.tree_flatten(h)
                if before == 2 or rec.status() == 0:
                    r.check(treedef == plaindef and len(flat) == len(plain) and
                            all(same(x, y) for (_, x), y in zip(flat, plain)),
                            "leaves and leaves with paths differ", lambda: f"{rec}: {flat} and {plain}")
                new = jax.tree_util.tree_unflatten(treedef, [x for _, x in flat])
                r.check(same(vars(new)["v"], vars(h)["v"]), "a value was lost", lambda: f"{rec} {how}")
                return self.judge(rec, before, "v" in got, how)
            if how == "leaves":
                # what is not a node is static: not seen by tree_map
                seen = []
                jax.tree_util.tree_map(lambda x: (seen.append(x), x)[1], h, is_leaf=lambda x: x is inner(h, rec))
                return self.judge(rec, before, any(x is inner(h, rec) for x in seen), how)
            if how == "saved":
                return self.judge(rec, before, "v" in serialization.to_state_dict(h), how)
            leaves, treedef = jax.tree_util.tree_flatten(h)
            got = len(leaves) > 1
            new = jax.tree_util.tree_unflatten(treedef, leaves)
            r.check(same(vars(new)["v"], vars(h)["v"]), "a value was lost", lambda: f"{rec} {how}")
            return self.judge(rec, before, got, how)
        m = Unit()
        m.first = nnx.Param(jnp_arr(1))
        m.sub = Unit()
        m.sub.v = o
        stored = vars(m.sub)["v"]
        if how == "state":
            return self.judge(rec, before, "sub/v" in m.get_state(), how)
        if how == "dict":
            return self.judge(rec, before, "sub/v" in m.mutable_state_dict(), how)
        if how == "filter":
            return self.judge(rec, before, "sub/v" in m.filter(...), how)
        if how == "pop":
            got = "sub/v" in m.pop_state(...)
            r.check(got != ("v" in vars(m.sub)), "a value was lost", lambda: f"{rec} {how}")
            return self.judge(rec, before, got, how)
        if how == "partition":
            state, moddef = m.partition()
            got = "sub/v" in state
            new = moddef.merge(state)
        else:
            new = m.clone()
            got = None
        r.check("v" in vars(new.sub) and same(vars(new.sub)["v"], stored), "a value was lost",
                lambda: f"{rec} {how}")
        if got is not None:
            self.judge(rec, before, got, how)

    def main(self, n):
        r = self.r
        for _ in range(n):
            r.step()
            k = r.weighted([("register", 5), ("define", 4), ("look", 6), ("shared", 2)])
            if k == "shared":
                if self.w.shared:
                    self.look(*r.pick(self.w.shared))
            else:
                getattr(self, k)()


def inner(h, rec):
    v = vars(h)["v"]
    return v


def same(a, b):
    """The same object, or a container or pytree rebuilt around the same contents."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    va, vb = dict(vars(a)), dict(vars(b))
    return va.keys() == vb.keys() and all(
        k.startswith("_") or same(va[k], vb[k]) if hasattr(va[k], "__dict__") else equal(va[k], vb[k]) for k in va)


def equal(a, b):
    if isinstance(a, (np.ndarray, jax.Array)):
        return bool((np.asarray(a) == np.asarray(b)).all())
    return a == b


def run(r):
    w = World()
    first = Actor(r, "main", w)
    for i in range(1 + r.draw(3)):
        rec = first.add(Rec(w.n, "plain", type("T", (), {})))
        w.n += 1
        w.shared.append((rec, rec.instance(i)))
    n = 1 if r.chance(100) else 2 + r.draw(3)
    actors = [Actor(r.sub(f"t{i}"), f"t{i}", w) for i in range(n)]
    sched.threads(r, [(a.name, lambda a=a: a.main(3 + a.r.draw(5))) for a in actors])
    # in the end every thread sees every registration
    for rec in w.recs:
        o = rec.instance(1)
        got = is_node(o)
        r.check(got is (rec.status() == 2), "registered type is not a node" if rec.status() == 2 else
                "unregistered type is a node", lambda: f"{rec} at the end")
        first.look(rec, o)
    for v, leaves in ((nnx.Param(jnp_arr(1)), 1), (Holder(1), 1), (jnp_arr(2), 1), (np.zeros(2), 1)):
        r.check(is_node(v) and len(jax.tree_util.tree_leaves(v)) == leaves, "registered type is not a node",
                lambda: f"{type(v).__name__} at the end")
    for v in (1, "text", None, (1, 2), [jnp_arr(1)], {"a": 1}, 2.5, nnx.Static(1), object()):
        r.check(not is_node(v), "unregistered type is a node", lambda: f"{type(v).__name__} at the end")
    r.nontrivial = w.registered >= 2 and w.looks >= 4
    r.state(n, tuple(sorted((c.kind, c.status()) for c in w.recs)))
