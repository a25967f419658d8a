"""C05: a tree of transforms, and attempts to change objects of every level in it.

A run builds nested transforms as it goes (nnx.jit, nnx.grad, nnx.remat, nnx.scan,
jax.jit), creates modules and contexts at every level, and at every point attempts
to change any object it has ever seen: of this level, of an outer one, of one that
has ended, or (with several simulated threads) of another thread.
"""
import copy
import jax
import jax.numpy as jnp
import numpy as np

from dst import model as M, sched
from dst.core import INJECTED, Injected, InjectedInterrupt, Violation
from dst.model import nnx

Refusal = nnx.TraceContextError


class Cell(nnx.Module):
    def __init__(self):
        pass


class Level:
    def __init__(self, kind, depth, thread):
        self.kind, self.depth, self.thread = kind, depth, thread
        self.alive = True

    def __repr__(self):
        return f"{self.kind}@{self.depth}" + ("" if self.alive else " (ended)")


class Obj:
    def __init__(self, real, level, kind, lifted=None):
        self.real, self.level, self.kind = real, level, kind
        self.lifted = lifted  # the transform that gave us this module
        self.twin = None
        self.root = real
        self.norm = None


def snapshot(m):
    """Attributes by identity: nothing may change when an attempt is refused."""
    out = []
    seen = set()

    def go(x):
        if id(x) in seen:
            return
        seen.add(id(x))
        attrs = M.real_attrs(x)
        out.append((id(x), {n: (id(v), id(getattr(v, "value", None)) if isinstance(v, nnx.Container) else 0) for n, v in attrs.items()}, attrs))
        for v in attrs.values():
            if isinstance(v, nnx.Module):
                go(v)

    go(m)
    return out


def same(a, b):
    return [x[:2] for x in a] == [x[:2] for x in b]


class Thread:
    def __init__(self, run, name, budget):
        self.r = run
        self.name = name
        self.objs = []
        self.budget = budget
        self.n = 0
        self.refused = self.allowed = 0
        self.others = None
        self.shared = False  # another thread may reach our objects

    # ---- objects
    def new_module(self, level):
        r = self.r
        cls = r.pick([Cell, nnx.Dict, nnx.Dict])
        m = cls()
        m.v = nnx.Param(self.val())
        m.w = nnx.BatchStat(self.val())
        m.a = self.val()
        m.k = 2
        o = Obj(m, level, "module")
        self.objs.append(o)
        if r.chance(300):
            o.norm = nnx.BatchNorm(1, ctx=nnx.context(0))
        if r.chance(500):
            m.sub = Cell()
            m.sub.v = nnx.Param(self.val())
            s = Obj(m.sub, level, "module")
            s.root = m
            self.objs.append(s)
        return o

    def new_context(self, level, seed):
        o = Obj(nnx.context(seed, dropout=seed + 1), level, "context")
        o.twin = nnx.context(seed, dropout=seed + 1)
        self.objs.append(o)
        return o

    def val(self):
        self.n += 1
        return M.arr(float(self.n % 50))

    # ---- attempts
    def attempt(self, level, x=None):
        r = self.r
        pool = self.objs
        if self.others and r.chance(200):
            pool = [o for t in self.others for o in t.objs] or pool
        o = r.pick(pool)
        own = o.level is level
        foreign_thread = o.level.thread is not self
        if o.kind == "context":
            name, fn = r.pick(CTX_OPS)
            act = lambda: fn(self, o, x)  # noqa: E731
            before = None
        else:
            safe = o.lifted == "scan" and own
            ops = SAFE_OPS if safe else MODULE_OPS
            if o.lifted and own:
                ops = [p for p in ops if p[0] != "attach"]
            name, fn = r.pick(ops)
            value = x if x is not None and not safe and r.chance(400) else self.val()
            act = lambda: fn(self, o, value, level)  # noqa: E731
            before = snapshot(o.root)
        r.step()
        r.ran(self.name)
        what = f"{name} on {o.kind} of {o.level} at {level}"
        where = f"[{self.name}] "
        try:
            undo = act()
        except Refusal as e:
            self.refused += 1
            r.ev(where, what, "refused")
            if own:
                raise Violation("refused at its own level", f"{what}: {e}") from e
            if before is not None and not self.shared:
                r.check(same(before, snapshot(o.root)), "refused attempt changed the module", what)
            if r.chance(150) and level.depth:
                raise  # the refusal ends this transform
            return
        except INJECTED:
            raise
        except Violation:
            raise
        except Exception as e:  # noqa: BLE001
            raise Violation(f"attempt failed:{type(e).__name__}", f"{what}: {e}") from e
        self.allowed += 1
        r.ev(where, what, "allowed")
        r.check(own or foreign_thread, "change allowed at another level", what)
        del undo

    # ---- transforms
    def nested(self, level):
        r = self.r
        kind = r.pick(["jit", "grad", "remat", "scan", "jax.jit", "jit+ctx", "grad of nothing"])
        hosts = [o for o in self.objs if o.level is level and o.kind == "module" and has_params(o)
                 and o.lifted != "scan" and o.root is o.real]
        if not hosts:
            hosts = [self.new_module(level)]
        host = r.pick(hosts)
        inner_levels = []
        calls = [0]

        def body(m, x, ctx=None):
            calls[0] += 1
            inner = Level(kind, level.depth + 1, self)
            inner_levels.append(inner)
            if m is not None:
                self.objs.append(Obj(m, inner, "module", lifted=kind))
            if ctx is not None:
                self.objs.append(Obj(ctx, inner, "context"))
            try:
                self.block(inner, x)
            finally:
                inner.alive = False
            return x

        r.ev(f"[{self.name}]", "enter", kind, "at", repr(level))
        x = jnp.float32(1.0)
        try:
            if kind == "jit":
                nnx.jit(lambda m, x: body(m, x))(host.real, x)
            elif kind == "jit+ctx":
                c = nnx.context(self.n, dropout=1)
                nnx.jit(lambda m, x, *, ctx: body(m, x, ctx))(host.real, x, ctx=c)
            elif kind == "grad":
                def loss(m, x):
                    y = m.v * x
                    body(m, y)
                    return jnp.sum(y)

                nnx.grad(loss)(host.real, x)
            elif kind == "grad of nothing":
                nnx.grad(lambda m, x: (body(m, x), jnp.float32(0))[1], wrt=nnx.Cache)(host.real, x)
            elif kind == "remat":
                nnx.remat(lambda m, x: body(m, x))(host.real, x)
            elif kind == "scan":
                nnx.scan(lambda m, c, s: (body(m, c), s))(host.real, x, jnp.zeros((2,)))
            else:
                jax.jit(lambda x: body(None, x))(x)
            r.ev(f"[{self.name}]", "leave", kind)
        except Violation:
            raise
        except (Refusal, *INJECTED) as e:
            r.fault(f"{kind} ended by {type(e).__name__}")
            r.ev(f"[{self.name}]", kind, "ended by", type(e).__name__)
            if level.depth and r.chance(200):
                raise
        except Exception as e:  # noqa: BLE001
            raise Violation(f"transform failed:{type(e).__name__}", f"{kind} at {level}: {e}") from e
        for lv in inner_levels:
            lv.alive = False
        if calls[0] == 0:
            raise Violation("transform did not call its function", kind)

    def block(self, level, x=None):
        r = self.r
        if r.chance(500) or level.depth == 0:
            self.new_module(level)
        if r.chance(400):
            self.new_context(level, 100 + self.n)
        for _ in range(1 + r.draw(5 if level.depth else 7)):
            if self.budget <= 0:
                break
            c = r.draw(10)
            if c >= 7 and level.depth < 4:
                self.budget -= 3
                self.nested(level)
            elif c == 6 and level.depth and r.chance(400):
                raise r.pick([Injected, InjectedInterrupt])("body")
            elif c == 5 and r.chance(300):
                self.new_module(level)
            else:
                self.budget -= 1
                self.attempt(level, x)

    def main(self):
        top = Level("top", 0, self)
        self.new_context(top, 7)
        self.block(top)
        # after everything: this level is usable, contexts gave the keys their own use prescribes
        for o in self.objs:
            if o.level is not top:
                continue
            if o.kind == "context":
                for s in ("params", "dropout"):
                    got, want = o.real.make_rng(s), o.twin.make_rng(s)
                    self.r.check(np.array_equal(np.asarray(got), np.asarray(want)), "refused draw advanced the context", s)
            else:
                try:
                    o.real.k = 3
                except Refusal as e:
                    raise Violation("refused at its own level", f"top level module after all transforms: {e}") from e


def has_params(o):
    v = vars(o.real).get("v")
    return isinstance(v, nnx.Param)


# ------------------------------------------------------------------ the attempts
def leaf(o):
    """The name of an array or variable attribute of the object."""
    m = o.real
    names = [n for n, v in sorted(M.real_attrs(m).items()) if isinstance(v, (nnx.Variable, jax.Array))
             and not isinstance(getattr(m, n), tuple)]
    return names[0] if names else None


def must_effect(t, own, ok, what):
    if own:
        t.r.check(ok, "allowed attempt had no effect", what)


def op_set(t, o, v, level):
    n = leaf(o) or "fresh"
    setattr(o.real, n, v)
    t.r.check(getattr(o.real, n) is v, "allowed attempt had no effect", "setattr")


def op_set_second(t, o, v, level):
    n = "a" if "a" in M.real_attrs(o.real) else "v"
    if n not in M.real_attrs(o.real):
        return op_set(t, o, v, level)
    setattr(o.real, n, v)
    t.r.check(getattr(o.real, n) is v, "allowed attempt had no effect", "setattr")


def op_static(t, o, v, level):
    o.real.k = t.n
    t.r.check(o.real.k == t.n, "allowed attempt had no effect", "static")


def op_new(t, o, v, level):
    o.real.extra = v
    t.r.check(o.real.extra is v, "allowed attempt had no effect", "new attribute")


def op_new_var(t, o, v, level):
    n = f"e{t.n}"
    setattr(o.real, n, nnx.Cache(v))
    t.r.check(getattr(o.real, n) is v, "allowed attempt had no effect", "new variable")


def op_del(t, o, v, level):
    names = [n for n in sorted(M.real_attrs(o.real)) if n not in ("v", "sub")]
    n = names[0] if names else None
    if n is None:
        return op_new(t, o, v, level)
    delattr(o.real, n)
    t.r.check(n not in vars(o.real), "allowed attempt had no effect", "delattr")


def op_update(t, o, v, level):
    n = leaf(o)
    if n is None:
        return op_new(t, o, v, level)
    state = o.real.get_state()
    one = nnx.State({n: jax.tree_map(lambda _: v, state[n])})
    o.real.update_state(one if t.r.chance(500) else (one,))
    t.r.check(getattr(o.real, n) is v, "allowed attempt had no effect", "update_state")


def op_update_from_clone(t, o, v, level):
    """Updates taken from a clone made here: the clone is ours, the target may not be."""
    c = o.real.clone()
    n = leaf(o)
    if n is not None:
        setattr(c, n, v)
    if M.real_attrs(c).keys() and t.r.chance(500):
        o.real.update_state(c.partition())
    else:
        o.real.update_state(c)
    if n is not None:
        t.r.check(getattr(o.real, n) is v, "allowed attempt had no effect", "update_state")


def op_pop(t, o, v, level):
    if not any(isinstance(x, nnx.BatchStat) for x in vars(o.real).values()):
        return op_new(t, o, v, level)
    s = o.real.pop_state(nnx.BatchStat)
    t.r.check(len(s) >= 1 and not any(isinstance(x, nnx.BatchStat) for x in vars(o.real).values()),
              "allowed attempt had no effect", "pop_state")


def op_sow(t, o, v, level):
    before = getattr(o.real, "log", ())
    o.real.sow(nnx.Intermediate, "log", v)
    t.r.check(len(o.real.log) == len(before) + 1 and o.real.log[-1] is v,
              "allowed attempt had no effect", "sow")


def op_sow_new(t, o, v, level):
    """The first value under a name of its own."""
    t.n += 1
    n = f"log{t.n}"
    o.real.sow(t.r.pick([nnx.Intermediate, nnx.Cache]), n, v)
    t.r.check(len(getattr(o.real, n)) == 1 and getattr(o.real, n)[0] is v, "allowed attempt had no effect", "sow")


def op_each(t, o, v, level):
    """Every module of the object's graph."""
    def change(m):
        m.mark = v

    o.real.for_each(nnx.Module, change)
    t.r.check(o.real.mark is v, "allowed attempt had no effect", "for_each")


def op_norm(t, o, v, level):
    """Training calls of a library layer change its statistics."""
    if o.norm is None or not o.level.alive or o.level.thread is not t:
        # jax itself refuses values that belong to a trace that has ended
        return op_set(t, o, v, level)
    before = o.norm.mean
    try:
        o.norm(jnp.ones((2, 1)), use_running_average=False)
    except Refusal:
        t.r.check(o.norm.mean is before, "refused attempt changed the module", "BatchNorm call")
        raise
    t.r.check(o.norm.mean is not before, "allowed attempt had no effect", "BatchNorm call")


def op_leaf(t, o, v, level):
    n = leaf(o)
    if n is None:
        return op_new(t, o, v, level)
    o.real.mutable_state_dict()[n].value = v
    t.r.check(getattr(o.real, n) is v, "allowed attempt had no effect", "mutable leaf")


def op_item(t, o, v, level):
    if not isinstance(o.real, nnx.Dict):
        return op_set(t, o, v, level)
    names = [n for n in ("item", "v", "a", "w") if n == "item" or n in M.real_attrs(o.real)]
    n = "item" if t.r.chance(600) else t.r.pick(names)
    k = t.r.draw(6)
    if k == 0 or n != "item":
        o.real[n] = v
    elif k == 1:
        o.real[n] = nnx.Cache(v)
    elif k == 2:
        v = o.real[n] = t.n
    elif o.lifted:
        o.real[n] = v
    else:
        v = o.real["child"] = Cell()
        t.r.check(o.real["child"] is v, "allowed attempt had no effect", "item")
        del o.real.child
        return
    t.r.check(o.real[n] is v or isinstance(v, int) and o.real[n] == v, "allowed attempt had no effect", "item")


def op_attach(t, o, v, level):
    m = Cell()
    m.v = nnx.Param(v)
    o.real.child = m
    t.r.check(o.real.child is m, "allowed attempt had no effect", "submodule")
    del o.real.child


def op_through_parent(t, o, v, level):
    """A module of this level around the object: changing the object through it."""
    m = Cell()
    m.inner = o.real
    n = leaf(o)
    if n is None:
        return op_new(t, o, v, level)
    state = o.real.get_state()
    m.update_state(nnx.State({f"inner/{n}": jax.tree_map(lambda _: v, state[n])}))
    t.r.check(getattr(o.real, n) is v, "allowed attempt had no effect", "update through a parent")


def op_pop_through_parent(t, o, v, level):
    if not any(isinstance(x, nnx.BatchStat) for x in vars(o.real).values()):
        return op_new(t, o, v, level)
    m = Cell()
    m.aw = nnx.BatchStat(v)
    m.inner = o.real
    try:
        m.pop_state(nnx.BatchStat)
    except Refusal:
        t.r.check(getattr(m, "aw", None) is v, "refused attempt changed the module", "pop through a parent")
        raise
    t.r.check(not any(isinstance(x, nnx.BatchStat) for x in vars(o.real).values()),
              "allowed attempt had no effect", "pop through a parent")


def op_transform(t, o, v, level):
    """A stateful transform called here on the object updates it here."""
    if leaf(o) is None or not o.level.alive or o.level.thread is not t:
        # jax itself refuses values that belong to a trace that has ended
        return op_new(t, o, v, level)

    def f(m, x):
        return x

    k = t.r.draw(3)
    if k == 0:
        nnx.jit(f)(o.real, jnp.float32(1))
    elif k == 1:
        nnx.remat(f)(o.real, jnp.float32(1))
    else:
        nnx.scan(lambda m, c, s: (c, s))(o.real, jnp.float32(1), jnp.zeros((2,)))


def op_transform_parent(t, o, v, level):
    """A stateful transform called here on a module of this level around the object."""
    if leaf(o) is None or not o.level.alive or o.level.thread is not t:
        return op_new(t, o, v, level)
    m = Cell()
    m.aw = nnx.Param(v)
    m.inner = o.real

    def f(m, x):
        m.aw = m.aw + x
        return x

    k = t.r.draw(3)
    try:
        if k == 0:
            nnx.jit(f)(m, jnp.float32(1))
        elif k == 1:
            nnx.remat(f)(m, jnp.float32(1))
        else:
            nnx.scan(lambda m, c, s: (f(m, c), s))(m, jnp.float32(1), jnp.zeros((2,)))
    except Refusal:
        t.r.check(m.aw is v, "refused attempt changed the module", "transform of a parent")
        raise
    t.r.check(m.aw is not v, "allowed attempt had no effect", "transform of a parent")


MODULE_OPS = [("set", op_set), ("set 2", op_set_second), ("static", op_static), ("new", op_new), ("new variable", op_new_var),
              ("del", op_del), ("update", op_update), ("update from clone", op_update_from_clone), ("pop", op_pop),
              ("sow", op_sow), ("sow new", op_sow_new), ("for_each", op_each), ("layer", op_norm), ("leaf", op_leaf), ("item", op_item), ("item 2", op_item), ("attach", op_attach),
              ("update through parent", op_through_parent), ("pop through parent", op_pop_through_parent),
              ("transform", op_transform), ("transform of a parent", op_transform_parent)]
SAFE_OPS = [("set", op_set), ("static", op_static), ("update", op_update), ("leaf", op_leaf)]


def ctx_rng(t, o, x):
    o.real.make_rng("params")
    if o.twin is not None and o.level.kind == "top":
        o.twin.make_rng("params")


def ctx_rng2(t, o, x):
    o.real.make_rng("dropout")
    if o.twin is not None and o.level.kind == "top":
        o.twin.make_rng("dropout")


def ctx_fork(t, o, x):
    p = o.real.partition()
    if o.twin is not None and o.level.kind == "top":
        o.twin.partition()
    c = p.merge()
    c.make_rng("params")


def ctx_pass(t, o, x):
    """Giving the context to a transform forks it here."""
    m = Cell()
    m.v = nnx.Param(M.arr(1.0))
    nnx.remat(lambda m, x, *, ctx: x)(m, jnp.float32(1), ctx=o.real)
    if o.twin is not None and o.level.kind == "top":
        o.twin.partition()


def ctx_copy(t, o, x):
    """A copy has the same streams."""
    o.real.copy().make_rng("params")
    if o.twin is not None and o.level.kind == "top":
        o.twin.make_rng("params")


def ctx_deepcopy(t, o, x):
    """A deep copy has streams of its own and belongs to the level of the context."""
    if not o.level.alive or o.level.thread is not t:
        # jax refuses to copy keys that belong to a trace that has ended
        return ctx_fork(t, o, x)
    copy.deepcopy(o.real).make_rng("params")


CTX_OPS = [("deepcopy", ctx_deepcopy), ("copy", ctx_copy), ("make_rng", ctx_rng), ("make_rng dropout", ctx_rng2), ("fork", ctx_fork), ("pass", ctx_pass)]


# ------------------------------------------------------------------ runs
def run(r):
    n = 1 if not r.chance(350) else 2 + r.draw(2)
    if n == 1:
        t = Thread(r, "t0", 30)
        t.main()
        ts = [t]
    else:
        ts = [Thread(r.sub(f"t{i}"), f"t{i}", 14) for i in range(n)]
        for t in ts:
            t.others = [u for u in ts if u is not t] if r.chance(400) else None
        for t in ts:
            t.shared = any(u.others for u in ts)
        sched.threads(r, [(t.name, t.main) for t in ts])
    r.nontrivial = any(t.refused for t in ts) and any(t.allowed for t in ts)
    for t in ts:
        r.state(t.refused, t.allowed)
