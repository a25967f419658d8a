"""C08: threads create, merge, clone and copy modules; sharing must stay exactly as it was.

Every simulated thread builds graphs of its own and copies of modules given to it,
each with a reference graph of plain objects beside it. During and after the run
graphs composed of them are taken apart, merged, cloned and compared including which
attributes refer to one and the same submodule. Some copies are made while tracing.
"""
import copy
import pickle

import jax
import jax.numpy as jnp

from dst import model as M, peer, sched
from dst.core import Injected, Violation
from dst.model import RMod, RVar, nnx

class Cell(nnx.Module):
    def __init__(self):
        pass


class Fragile(nnx.Module):
    """A module whose constructor may fail after it made submodules."""

    def __init__(self, fail=False):
        self.x = Cell()
        if fail:
            raise Injected("constructor")


class Bomb:
    """A static attribute that cannot be copied at some point."""

    def __init__(self, armed=False):
        self.armed = armed

    def __deepcopy__(self, memo):
        if self.armed:
            raise Injected("deepcopy of an attribute")
        return self


class Worker:
    def __init__(self, r, name, given):
        self.r, self.name, self.given = r, name, given
        self.names = M.names(r, 4)
        self.pool = []  # [real, ref]
        self.n = 0
        self.log = []

    def value(self):
        self.n += 1
        return float(self.n)

    def new(self):
        r = self.r
        cls = r.pick([Cell, nnx.Dict, Fragile])
        real, ref = cls(), RMod(cls)
        if cls is Fragile:
            ref.attrs["x"] = RMod(Cell)
            real.x.v = nnx.Param(M.arr(0.0))
            ref.attrs["x"].attrs["v"] = RVar("Param", M.refarr(0.0))
        v = self.value()
        real.v = nnx.Param(M.arr(v))
        ref.attrs["v"] = RVar("Param", M.refarr(v))
        return self.add(real, ref)

    def add(self, real, ref):
        if len(self.pool) >= 6:
            del self.pool[0]
        self.pool.append([real, ref])
        return real, ref

    def some(self):
        return self.r.pick(self.pool)

    def inner(self):
        real, ref = self.some()
        ms = M.modules(ref)
        t = ms[self.r.draw(len(ms))]
        path = path_to(ref, t)
        for n in path:
            real = vars(real)[n]
        return real, t

    def step(self):
        r = self.r
        if not self.pool:
            self.new()
        op = r.weighted([("new", 4), ("batch", 2), ("attach", 6), ("set", 3), ("clone", 3), ("copy", 4), ("deepcopy", 3), ("pickle", 2),
                         ("given", 4), ("partition", 3), ("inside", 1), ("fail", 2), ("detach", 2), ("filtered", 2)])
        r.step()
        what = getattr(self, "op_" + op)() or op
        r.ev(f"[{self.name}]", what)
        return op

    def op_new(self):
        self.new()

    def op_batch(self):
        """Many modules at once, all attached to one parent."""
        real, ref = Cell(), RMod(Cell)
        kids = [nnx.Dict() if self.r.chance(500) else Cell() for _ in range(2 + self.r.draw(4))]
        for i, k in enumerate(kids):
            v = self.value()
            k.v = nnx.Cache(M.arr(v))
            c = RMod(type(k))
            c.attrs["v"] = RVar("Cache", M.refarr(v))
            setattr(real, f"k{i}", k)
            ref.attrs[f"k{i}"] = c
        self.add(real, ref)

    def op_attach(self):
        real, ref = self.inner()
        c, cref = self.inner()
        n = self.r.pick(self.names)
        if isinstance(ref.attrs.get(n), RVar):
            return "attach skipped"
        setattr(real, n, c)
        ref.attrs[n] = cref
        return f"attach .{n}"

    def op_detach(self):
        real, ref = self.inner()
        names = [n for n, v in sorted(ref.attrs.items()) if isinstance(v, RMod)]
        if not names:
            return "detach skipped"
        n = self.r.pick(names)
        delattr(real, n)
        del ref.attrs[n]

    def op_set(self):
        real, ref = self.inner()
        v = self.value()
        if "v" in ref.attrs:
            real.v = M.arr(v)
            ref.attrs["v"] = RVar(ref.attrs["v"].kind, M.refarr(v))
        else:
            real.v = nnx.BatchStat(M.arr(v))
            ref.attrs["v"] = RVar("BatchStat", M.refarr(v))

    def op_clone(self):
        real, ref = self.some()
        self.add(real.clone(), M.copy_graph(ref))

    def op_copy(self):
        """A shallow copy: a module of its own with the same attributes."""
        real, ref = self.inner()
        c = RMod(ref.cls)
        c.attrs = {n: M.copy_leaf(v) for n, v in ref.attrs.items()}
        self.add(copy.copy(real), c)

    def op_deepcopy(self):
        real, ref = self.some()
        self.add(copy.deepcopy(real), M.copy_graph(ref))

    def op_pickle(self):
        real, ref = self.some()
        self.add(pickle.loads(pickle.dumps(real)), M.copy_graph(ref))

    def op_given(self):
        """Merge a pure module, or copy a module, that all threads were given."""
        pure, real, ref, blob = self.r.pick(self.given)
        k = self.r.draw(6)
        if k == 5:
            new = pickle.loads(blob)
        elif k == 0:
            new = copy.deepcopy(real)
        elif k == 1:
            new = real.clone()
        else:
            new = pure.merge()
        self.add(new, M.copy_graph(ref))
        return ["deepcopy", "clone", "merge", "merge", "merge", "unpickled"][k] + " of a given module"

    def op_partition(self):
        real, ref = self.some()
        pure = real.partition()
        d = M.state_diff(pure.states, M.state_of(ref))
        self.r.check(d is None, "state after partition", d)
        self.add(pure.merge(), M.copy_graph(ref))

    def op_filtered(self):
        real, ref = self.some()
        states, moduledef = real.partition(nnx.Param, ...)
        if self.r.chance(500):
            states = states[::-1]
        self.add(moduledef.merge(*states), M.copy_graph(ref))

    def op_inside(self):
        """Copies made while tracing belong to that level and to nothing else."""
        r = self.r
        real, ref = self.some()
        how = r.pick(["copy", "deepcopy", "clone", "merge", "unpickle"])
        pure = real.partition()
        blob = pickle.dumps(real)

        def f(x):
            c = {"copy": copy.copy, "deepcopy": copy.deepcopy, "clone": lambda m: m.clone(),
                 "merge": lambda m: pure.merge(), "unpickle": lambda m: pickle.loads(blob)}[how](real)
            # (the values of a deep copy are traced)
            want = ref
            if how == "copy":
                want = RMod(ref.cls)
                want.attrs = dict(ref.attrs)
            d = M.graph_diff(c, want) if how not in ("deepcopy", "unpickle") else None
            r.check(d is None, f"{how} while tracing", d)
            try:
                c.fresh = x
            except Exception as e:  # noqa: BLE001
                raise Violation("copy not usable where it was made", f"{how}: {e}") from e
            r.check(c.fresh is x, "copy not usable where it was made", how)
            m = Cell()
            m.one, m.two, m.three = c, c, Cell()
            again = m.clone()
            r.check(again.one is again.two and again.one is not again.three, "sharing while tracing", how)
            return x

        jax.jit(f)(jnp.float32(1))
        return f"inside: {how}"

    def op_fail(self):
        r = self.r
        k = r.draw(3)
        if k == 0:
            ok, e = r.attempt(Fragile, True)
            r.fault("constructor fails")
        elif k == 1:
            real, ref = self.some()
            m = Cell()
            m.a, m.bomb, m.z = real, Bomb(True), real
            ok, e = r.attempt(copy.deepcopy, m)
            r.fault("deepcopy fails half-way")
        else:
            real, ref = self.some()

            def bad(p, v):
                raise Injected("filter")

            ok, e = r.attempt(real.partition, bad, ...)
            if not M.state_of(ref):
                return "fail: nothing to filter"
            r.fault("filter fails in partition")
        r.check(not ok and isinstance(e, Injected), "failing call returned", repr(e))
        return "fail"

    def check(self):
        for i, (real, ref) in enumerate(self.pool):
            d = M.graph_diff(real, ref)
            self.r.check(d is None, "graph", lambda: f"{self.name}: object {i}: {d}")
            d = M.state_diff(real.get_state(), M.state_of(ref))
            self.r.check(d is None, "state", lambda: f"{self.name}: object {i}: {d}")

    def main(self, n):
        for _ in range(n):
            self.step()
        self.check()


def path_to(root, target):
    seen = set()

    def go(m, path):
        if m is target:
            return path
        if id(m) in seen:
            return None
        seen.add(id(m))
        for n, v in sorted(m.attrs.items()):
            if isinstance(v, RMod):
                p = go(v, (*path, n))
                if p is not None:
                    return p
        return None

    return go(root, ())


def crowd(r):
    """More modules in one graph, and in the process, than a narrow counter could tell apart."""
    n = r.pick([5000, 66000])
    root, first = Cell(), Cell()
    first.v = nnx.Param(M.arr(1.0))
    root.first = root.same = first
    for i in range(n):
        c = Cell()
        if i % 1000 == 0:
            c.v = nnx.Cache(M.arr(2.0))
        setattr(root, f"k{i}", c)
    marked = (n + 999) // 1000
    for m, what in ((root, "made"), (root.clone(), "cloned")):
        objs = set()
        m.for_each(nnx.Module, objs.add)
        r.check(len(objs) == n + 2, "modules confused", lambda: f"{what}: {len(objs)} modules instead of {n + 2}")
        r.check(len(m.get_state()) == marked + 1, "modules confused", lambda: f"{what}: {len(m.get_state())} variables")
        r.check(m.first is m.same and m.first is not m.k0 and len(list(vars(m))) == len(list(vars(root))),
                "sharing in a large graph", what)
    r.ev("crowd", n)
    r.probe(f"graph of {n} modules")
    r.nontrivial = True


def run(r):
    if r.chance(3):
        return crowd(r)
    top = Worker(r, "main", [])
    for _ in range(r.draw(5)):
        top.step() if top.given else top.new()
    top.given = []
    if not top.pool:
        top.new()
    for _ in range(r.draw(4)):
        top.op_attach()
    given = []
    for real, ref in top.pool:
        given.append((real.partition(), real.clone(), M.copy_graph(ref), pickle.dumps(real)))
    n = 1 if r.chance(250) else 2 + r.draw(3)
    if n == 1:
        w = Worker(r, "t0", given)
        w.pool = top.pool
        for _ in range(6 + r.draw(14)):
            r.ran(w.step())
        w.check()
        workers = [w]
    else:
        workers = [Worker(r.sub(f"t{i}"), f"t{i}", given) for i in range(n)]
        over = {}
        if r.chance(600):
            over = dict(granularity="opcode", scale=r.pick([3, 6, 12, 40]))
        sched.threads(r, [(w.name, lambda w=w: w.main(3 + w.r.draw(6))) for w in workers], **over)
    # a graph of everything that was made anywhere
    root, rref = Cell(), RMod(Cell)
    for w in workers:
        for i, (real, ref) in enumerate(w.pool):
            setattr(root, f"{w.name}_{i}", real)
            rref.attrs[f"{w.name}_{i}"] = ref
            if r.chance(200):
                setattr(root, f"{w.name}_{i}_again", real)
                rref.attrs[f"{w.name}_{i}_again"] = ref
    for i, (pure, real, ref, _) in enumerate(given):
        if n > 1:
            setattr(root, f"g{i}", real)
            rref.attrs[f"g{i}"] = ref
    compare(r, root, rref, "composed")
    m = root.clone() if r.chance(500) else root.partition().merge()
    compare(r, m, M.copy_graph(rref), "composed and merged")
    if r.chance(300):
        compare(r, copy.deepcopy(m), M.copy_graph(rref), "composed, merged and copied")
    if r.chance(200):
        compare(r, pickle.loads(pickle.dumps(m)), M.copy_graph(rref), "composed, merged and unpickled")
    if r.chance(30):
        # taken up by another process, which has modules of its own
        try:
            d = peer.call("dst.props.c08", "adopt", m, rref, r.draw(60))
        except peer.PeerFailed as e:
            raise Violation("other process failed", str(e)) from e
        r.fault("continued in another process")
        r.check(d is None, "in another process", d)
    compare(r, root, rref, "composed, after merge")
    objs = set()
    count = len(M.modules(rref))
    root.for_each(nnx.Module, objs.add)
    r.check(len(objs) == count, "modules confused", lambda: f"{len(objs)} distinct modules instead of {count}")
    r.nontrivial = count >= 4
    r.state(n, count)


def adopt(m, rref, n):
    """In the other process: the graph beside modules that were made here."""
    root, ref = Cell(), RMod(Cell)
    root.old, ref.attrs["old"] = m, rref
    for i in range(n):
        c = Cell()
        c.v = nnx.Param(M.arr(float(i)))
        setattr(root, f"new{i}", c)
        ref.attrs[f"new{i}"] = RMod(Cell)
        ref.attrs[f"new{i}"].attrs["v"] = RVar("Param", M.refarr(float(i)))
    try:
        m.extra = nnx.Param(M.arr(1.0))
    except nnx.TraceContextError as e:
        return f"not usable there: {e}"
    rref.attrs["extra"] = RVar("Param", M.refarr(1.0))
    return (M.graph_diff(root, ref) or M.state_diff(root.get_state(), M.state_of(ref))
            or M.graph_diff(root.clone(), ref))


def compare(r, real, ref, what):
    d = M.graph_diff(real, ref)
    r.check(d is None, f"graph: {what}", d)
    d = M.state_diff(real.get_state(), M.state_of(ref))
    r.check(d is None, f"state: {what}", d)
