"""C15: concurrent readers of shared modules.

A model built from library layers and user blocks (with shared and cyclic submodules)
is served by several simulated threads at once: they call it, snapshot it, filter it,
clone it, print it, differentiate it, run jitted functions over it and run methods that
change everything they can reach through `apply`. Some readers fail part-way: bad
shapes, a brittle layer, faults in the methods. The oracle is the same operation
executed alone, in advance, on a model of its own; results are compared bit for bit,
and after every operation of any thread the shared model, states, pure modules and
train state are compared with what they were at the start.
"""
import copy
import random

import jax
import jax.numpy as jnp
import numpy as np
import optax

from dst import model as M, sched
from dst.core import INJECTED, Injected, Violation
from dst.model import nnx

D = 3


# ------------------------------------------------------------------ the model zoo
class Brittle(nnx.Module):
    """A layer that fails when the caller's context says so."""

    def __init__(self, label):
        self.label = label

    def __call__(self, x, ctx=None):
        if ctx is not None and ctx.get_flag(f"fail{self.label}"):
            raise Injected(f"brittle {self.label}")
        return x


class Table(nnx.Module):
    def __init__(self, ctx):
        self.embed = nnx.Embed(4, D, ctx=ctx)

    def __call__(self, x, ctx=None):
        idx = np.arange(x.shape[0] * x.shape[1]).reshape(x.shape[:2]) % 4
        return x + self.embed(jnp.asarray(idx))


class Block(nnx.Module):
    """Calls its children in order; in training mode counts and records."""

    def __init__(self, children, ctx):
        self.order = tuple(n for n, _ in children)
        for n, c in children:
            setattr(self, n, c)
        self.scale = nnx.Param(jnp.ones(()) * 0.5)
        self.count = nnx.BatchStat(jnp.zeros((), jnp.int32))
        self.offset = jnp.ones((D,)) * 0.25

    def __call__(self, x, ctx=None):
        train = ctx is not None and ctx.get_flag("train")
        for n in self.order:
            c = getattr(self, n)
            x = call(c, x, ctx)
        if train:
            self.count = self.count + 1
            self.sow(nnx.Intermediate, "seen", jnp.sum(x))
        return x * self.scale + self.offset

    def edit(self, plan, x):
        """Runs a list of edits on everything reachable from here."""
        return run_plan(self, plan, x)

    def remat(self, x, ctx=None):
        return nnx.remat(lambda m, y: y * m.scale)(self, x)


class Box(nnx.Dict):
    """A dict of layers, called in the order of their names."""

    def __call__(self, x, ctx=None):
        for n in sorted(k for k in vars(self) if k.startswith("k")):
            x = call(self[n], x, ctx)
        return x

    def edit(self, plan, x):
        return run_plan(self, plan, x)


class Seq(nnx.Sequence):
    def edit(self, plan, x):
        return run_plan(self, plan, x)


PLAIN = (nnx.Linear, nnx.LayerNorm, nnx.Conv)


def call_as(m, f, u):
    """Calls f, which stands for m, with the arguments m takes."""
    return f(u.x()) if isinstance(m, PLAIN) else f(u.x(), ctx=u.ctx("train"))


def call(f, x, ctx):
    if isinstance(f, PLAIN):
        return f(x)
    return f(x, ctx=ctx)


LEAVES = ["linear", "linear", "layernorm", "batchnorm", "dropout", "brittle", "table"]


def build(n):
    """Architecture number n; small numbers are small models."""
    rng = random.Random(f"arch{n}")
    ctx = nnx.context(params=n, flags={})
    made, blocks = [], []

    def leaf():
        k = rng.choice(LEAVES + (["conv"] if n % 7 == 3 else []))
        if k == "linear":
            return nnx.Linear(D, D, ctx=ctx)
        if k == "layernorm":
            return nnx.LayerNorm(D, ctx=ctx)
        if k == "batchnorm":
            return nnx.BatchNorm(D, momentum=0.5, use_scale=rng.random() < 0.5, ctx=ctx)
        if k == "dropout":
            return nnx.Dropout(0.5)
        if k == "brittle":
            return Brittle(rng.randrange(2))
        if k == "conv":
            return nnx.Conv(D, D, (2,), ctx=ctx)
        return Table(ctx)

    def node(depth):
        if made and rng.random() < 0.2:
            return rng.choice(made)  # a shared submodule
        if depth < 2 and rng.random() < 0.5:
            kids = [node(depth + 1) for _ in range(1 + rng.randrange(3))]
            k = rng.choice(["block", "block", "seq", "box"])
            if k == "seq":
                m = Seq(kids)
            elif k == "box":
                m = Box({f"k{i}": c for i, c in enumerate(kids)})
            else:
                m = Block([(f"k{i}", c) for i, c in enumerate(kids)], ctx)
                blocks.append(m)
        else:
            m = leaf()
        made.append(m)
        return m

    if n % 8 == 6:
        # no variables at all
        kids = [nnx.Dropout(0.5) if rng.random() < 0.4 else Brittle(rng.randrange(2)) for _ in range(1 + rng.randrange(3))]
        root = Seq(kids) if rng.random() < 0.5 else Box({f"k{i}": c for i, c in enumerate(kids)})
        root.note = "static"
        return root
    root = Block([(f"k{i}", node(1)) for i in range(1 + rng.randrange(1 + min(n, 3)))], ctx)
    if rng.random() < 0.3:
        for b in blocks[:1]:
            b.up = root  # a cycle
    if rng.random() < 0.3:
        root.note = "static"
    if rng.random() < 0.3:
        root.log = nnx.Intermediate((jnp.ones(()),))
    if rng.random() < 0.3:
        root.meta = nnx.Param(jnp.ones((D,)), sharding=("x",))
    return root


POOL = {}
ARCHS = 48


def pooled(n):
    """(pure, frozen) of architecture n; every run starts from a module merged out of it."""
    e = POOL.get(n)
    if e is None:
        pure = build(n).partition()
        e = POOL[n] = (pure, freeze(pure))
    return e


# ------------------------------------------------------------------ frozen values
def freeze(x, memo=None):
    """A comparable copy of any value; module identity within x becomes structure."""
    memo = {} if memo is None else memo
    if isinstance(x, jax.core.Tracer):
        return ("tracer",)
    if isinstance(x, (jax.Array, np.ndarray)):
        a = np.asarray(x)
        return ("array", str(a.dtype), a.shape, a.tobytes())
    if isinstance(x, nnx.Module):
        i = memo.get(id(x))
        if i is not None:
            return ("seen", i)
        memo[id(x)] = len(memo)
        attrs = tuple((k, freeze(v, memo)) for k, v in sorted(vars(x).items()) if not k.startswith("_module__"))
        return ("module", type(x).__name__, x.is_initializing, attrs)
    if isinstance(x, nnx.Container):
        return ("var", type(x).__name__, tuple((k, freeze(v, memo)) for k, v in sorted(vars(x).items())))
    if isinstance(x, nnx.Pure):
        return ("pure", freeze(x.states, memo), freeze(x.moduledef, memo))
    if isinstance(x, nnx.State):
        return ("state", tuple((k, freeze(v, memo)) for k, v in x.items()))
    if isinstance(x, nnx.ModuleDef):
        return ("def", x.type.__name__, x.index, freeze(x.submodules, memo), freeze(x.static_fields, memo),
                freeze(tuple(x.module_state), memo))
    if isinstance(x, nnx.TrainState):
        return ("train state", tuple((k, freeze(v, memo)) for k, v in sorted(vars(x).items()) if k != "tx"
                                     and not k.startswith("_")))
    if isinstance(x, tuple):
        return (type(x).__name__, tuple(freeze(v, memo) for v in x))
    if isinstance(x, list):
        return ("list", tuple(freeze(v, memo) for v in x))
    if isinstance(x, dict):
        return ("dict", tuple((k, freeze(v, memo)) for k, v in sorted(x.items())))
    if callable(x):
        return ("callable", getattr(x, "__name__", type(x).__name__))
    return (type(x).__name__, repr(x) if not isinstance(x, (str, int, float, bool, type(None))) else x)


def differ(a, b, path=""):
    """Where two frozen values differ."""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a[:1] == b[:1]:
        for i, (p, q) in enumerate(zip(a, b)):
            d = differ(p, q, f"{path}/{p[0] if isinstance(p, tuple) and p and isinstance(p[0], str) else i}")
            if d:
                return d
    return f"{path}: {str(a)[:150]} became {str(b)[:150]}"


# ------------------------------------------------------------------ edits made inside apply
def mods(root):
    """All modules reachable, in a deterministic order."""
    out, seen = [], set()

    def go(m):
        if id(m) in seen:
            return
        seen.add(id(m))
        out.append(m)
        for _, v in sorted(vars(m).items()):
            if isinstance(v, nnx.Module):
                go(v)

    go(root)
    return out


def names(m, want):
    return [k for k, v in sorted(vars(m).items()) if not k.startswith("_") and want(v)]


def is_data(v):
    return isinstance(v, (nnx.Container, jax.Array))


EDITS = ["set", "set", "static", "new", "newvar", "delete", "sow", "pop", "update", "leaf", "item", "swap", "attach",
         "replace", "train", "nested", "init", "raise", "updatepure", "sub", "detach"]


def gen_plan(r):
    return tuple((r.pick(EDITS), r.draw(6), r.draw(6), 1 + r.draw(9)) for _ in range(1 + r.draw(5)))


def run_plan(root, plan, x):
    seen = []
    for kind, i, j, v in plan:
        ms = mods(root)
        m = ms[i % len(ms)]
        data, subs = names(m, is_data), names(m, lambda a: isinstance(a, nnx.Module))
        val = jnp.full((D,), float(v))
        if kind in ("set", "delete", "leaf") and not data:
            continue
        subs = [n for n in subs if n[0] in "k0123"]
        if kind in ("swap", "replace", "detach") and not subs:
            continue
        if kind == "set":
            setattr(m, data[j % len(data)], val)
        elif kind == "static":
            m.tagged = v
        elif kind == "new":
            setattr(m, f"raw{j % 2}", val)
        elif kind == "newvar":
            if f"var{j % 2}" not in vars(m):
                setattr(m, f"var{j % 2}", nnx.Cache(val, note="n"))
        elif kind == "delete":
            delattr(m, data[j % len(data)])
        elif kind == "sow":
            m.sow(nnx.Intermediate, "sown", val)
        elif kind == "pop":
            seen.append(m.pop_state([nnx.Param, nnx.BatchStat, nnx.Intermediate, nnx.buffers, nnx.Variable][j % 5]))
        elif kind == "update":
            s = m.get_state()
            m.update_state(jax.tree_map(lambda a: a + v, s))
        elif kind == "updatepure":
            # the same values doubled, as a pure module of filtered states
            p = m.partition(nnx.Param, ...)
            m.update_state(jax.tree_map(lambda a: a * 2, p))
        elif kind == "leaf":
            d = m.mutable_state_dict()
            k = sorted(d)[j % len(d)]
            d[k].value = val
            seen.append(d[k].value)
        elif kind == "item":
            for b in ms:
                if isinstance(b, nnx.Dict):
                    b["item"] = val
                    seen.append(b["item"])
        elif kind == "swap":
            a, b = subs[j % len(subs)], subs[-1]
            p, q = vars(m)[a], vars(m)[b]
            setattr(m, a, q)
            setattr(m, b, p)
        elif kind == "attach":
            setattr(m, f"link{j % 2}", ms[j % len(ms)])
        elif kind == "replace":
            setattr(m, subs[j % len(subs)], Brittle(v))
        elif kind == "detach":
            delattr(m, subs[j % len(subs)])
        elif kind == "sub":
            b = Brittle(v)
            b.w = nnx.Param(val)
            m.grown = b
        elif kind == "train":
            seen.append(root(x, ctx=nnx.context(dropout=v, flags=TRAIN)))
        elif kind == "nested":
            # apply on a part of the clone leaves the clone alone
            before = freeze(root)
            try:
                seen.append(m.apply.__call__(x, ctx=nnx.context(dropout=v, flags=TRAIN))[0])
            except TypeError:
                pass
            if freeze(root) != before:
                raise Violation("nested apply changed its receiver", differ(before, freeze(root)))
        elif kind == "init":
            if isinstance(root, Block):
                seen.append(root.init(x, ctx=nnx.context(dropout=v, flags=SERVE)))
        elif kind == "raise":
            if j == 0:
                raise Injected("method fails")
    return seen, root.get_state()


SERVE = {"use_running_average": True, "deterministic": True}
NOISY = {"use_running_average": True, "deterministic": False}
TRAIN = {"use_running_average": False, "deterministic": False, "train": True}


# ------------------------------------------------------------------ what readers share
class World:
    """One model and the snapshots of it that are handed out."""

    def __init__(self, n):
        self.n = n
        self.module = pooled(n)[0].merge()
        self.pure = self.module.partition()
        self.parts = self.module.partition(nnx.Param, nnx.BatchStat, ...)
        self.state = self.pure.get_state()
        params, _, _ = self.parts.states
        self.ts = nnx.TrainState(self.parts.moduledef, params=params, tx=TX)
        self.mods = mods(self.module)
        # proxies that are kept and called again and again
        self.kept = {"module.apply": self.module.apply, "pure.apply": self.pure.apply, "parts.apply": self.parts.apply,
                     "moduledef.apply": self.pure.moduledef.apply(self.state),
                     "moduledef.apply parts": self.parts.moduledef.apply(*self.parts.states),
                     "train state": self.ts.apply("params", *self.parts.states[1:]),
                     "pure.call": self.pure.call, "parts.call": self.parts.call}

    def frozen(self):
        return {k: freeze(getattr(self, k)) for k in ("module", "pure", "parts", "state", "ts")}


TX = optax.sgd(0.5, momentum=0.5)
FLAGS = {"serve": SERVE, "noisy": NOISY, "train": TRAIN}


class Use:
    """A reader's own arguments: nothing in here is shared."""

    def __init__(self, r):
        self.seed = r.draw(50)
        self.fail = r.pick(["", "", "", "", "fail0", "fail1", "shape"])
        self.target = r.draw(8)
        self.k = r.draw(6)
        self.mode = r.pick(["serve", "serve", "noisy"])
        self.plan = gen_plan(r)
        self.at = 1 + r.draw(6)
        self.kept = r.chance(500)

    def __repr__(self):
        return f"{self.seed} {self.fail or '-'} {self.target} {self.k} {self.mode}{' kept' * self.kept}"

    def x(self):
        shape = (2, 2, D + (self.fail == "shape"))
        return jnp.asarray(np.arange(np.prod(shape), dtype=np.float32).reshape(shape) / 8 + self.seed)

    def ctx(self, mode=None):
        flags = dict(FLAGS[mode or self.mode])
        if self.fail.startswith("fail"):
            flags[self.fail] = True
        return nnx.context(dropout=self.seed, flags=flags)

    def pick(self, w):
        return w.mods[self.target % len(w.mods)]

    def filters(self):
        seen = [0]

        def failing(p, v):
            seen[0] += 1
            if seen[0] == self.at:
                raise Injected("filter")
            return seen[0] % 2 == 0

        return [(nnx.Param, ...), (nnx.BatchStat, nnx.Param, ...), (nnx.buffers, ...), (failing, ...),
                (lambda p, v: "k0" in p, nnx.Variable, ...), (...,)][self.k]


def o_call(w, u):
    return w.module(u.x(), ctx=u.ctx())


def o_part_call(w, u):
    """Call a part of the shared model directly."""
    m = u.pick(w)
    return call(m, u.x(), u.ctx())


def o_partition(w, u):
    p = u.pick(w).partition(*u.filters())
    return p, hash(p.moduledef) == hash(copy.copy(p.moduledef)), p.moduledef == u.pick(w).get_module_def()


def o_filter(w, u):
    return u.pick(w).filter(*u.filters()), u.pick(w).get_state()


def o_clone(w, u):
    """Clones are the reader's own: it changes them."""
    m = u.pick(w)
    c = [lambda: m.clone(), lambda: m.partition().merge(), lambda: copy.deepcopy(m),
         lambda: m.get_module_def().merge(m.get_state()), lambda: m.partition(nnx.Param, ...).merge(),
         lambda: copy.copy(m)][u.k]()
    before = freeze(c)
    if u.k == 5:
        c.raw = u.x()  # a shallow copy shares its submodules
        return before, freeze(c)
    return before, run_plan(c, u.plan, u.x()), freeze(c)


def o_apply(w, u):
    m = u.pick(w)
    if u.kept:
        a = w.kept["module.apply"]
        if u.k < 2:
            return a(u.x(), ctx=u.ctx("train"))
        return call_as(w.module.k0, a.k0, u) if u.k == 2 else a.edit(u.plan, u.x())
    if u.k == 0:
        return w.module.apply(u.x(), ctx=u.ctx("train"))
    if u.k == 1:
        return call_as(m, m.apply, u)
    if u.k == 2:
        return call_as(w.module.k0, w.module.apply.k0, u)
    if u.k == 3:
        return w.module.apply.remat(u.x(), ctx=u.ctx())
    return w.module.apply.edit(u.plan, u.x())


def o_pure_apply(w, u):
    a = [w.pure.apply, w.parts.apply, w.pure.moduledef.apply(w.state), w.parts.moduledef.apply(*w.parts.states),
         w.ts.apply("params", *w.parts.states[1:]), w.pure.apply][u.k]
    if u.kept:
        a = w.kept[["pure.apply", "parts.apply", "moduledef.apply", "moduledef.apply parts", "train state",
                    "moduledef.apply"][u.k]]
    if u.mode == "serve":
        return a(u.x(), ctx=u.ctx("train"))
    return a.edit(u.plan, u.x())


def o_pure_call(w, u):
    c = (w.pure if u.k % 2 else w.parts).call
    if u.kept:
        c = w.kept["pure.call" if u.k % 2 else "parts.call"]
    if u.k < 2:
        return c(u.x(), ctx=u.ctx("train"))
    if u.k < 4:
        return c.edit(u.plan, u.x())
    return call_as(w.module.k0, c.k0, u)


def o_pure_ops(w, u):
    p = w.pure if u.k % 2 else w.parts
    f = u.filters()
    if len(f) == 1:
        return p.get_state(), p.partition(), p.update_state(w.module), p.merge()
    return (p.partition(*f), p.filter(*f), p.pop_state(*f[:-1]) if f[:-1] else None,
            p.update_state(jax.tree_map(lambda a: a * 2, w.state)), p.merge(), p.get_state())


def o_state_ops(w, u):
    s = w.state
    f = u.filters()
    parts = s.partition(*f)
    parts = parts if isinstance(parts, tuple) else (parts,)
    half = parts[0]
    return (parts, s.filter(*f), nnx.State.merge(*parts), s | jax.tree_map(lambda a: a + 1, half), s - half,
            jax.tree_map(lambda a: a * u.seed, s), list(s), len(s),
            jax.tree_util.tree_leaves(w.pure), nnx.get_partition_spec(s) if u.k == 0 else None)


def o_grad(w, u):
    def loss(m, x):
        return jnp.sum(m(x, ctx=u.ctx()) ** 2)

    if u.k < 2:
        return nnx.grad(loss, wrt=nnx.Param, stateful=False)(w.module, u.x())
    if u.k == 2:
        params, *rest = w.parts.states
        return jax.grad(lambda p: jnp.sum(w.parts.moduledef.apply(p, *rest)(u.x(), ctx=u.ctx("train"))[0]))(params)
    if u.k == 3:
        # the shared model is a constant of the reader's own trace
        return jax.grad(lambda x: loss(w.module, x))(u.x())
    # a foreign reader takes gradients on a clone of its own, statefully
    c = w.module.clone()
    g = nnx.grad(lambda m, x: jnp.sum(m(x, ctx=u.ctx("train"))), wrt=nnx.Param)(c, u.x())
    return g, c


def o_trace(w, u):
    """The shared model is read inside the reader's own trace."""
    if u.k < 3:
        return jax.eval_shape(lambda x: w.module(x, ctx=u.ctx()), u.x())
    if u.k == 3:
        return str(jax.make_jaxpr(lambda x: w.pure.call(x, ctx=u.ctx("train")))(u.x()))
    return str(jax.make_jaxpr(lambda x: w.module.apply(x, ctx=u.ctx("train"))[0])(u.x()))


def serve(m, x):
    return m(x, ctx=nnx.context(dropout=1, flags=SERVE))


def step(m, x):
    return m(x, ctx=nnx.context(dropout=1, flags=TRAIN))


JITS = {}


def jitted(w):
    """Functions every reader of this architecture uses, compiled before the readers start."""
    fns = JITS.get(w.n)
    if fns is None:
        fns = JITS[w.n] = (nnx.jit(serve, stateful=False), nnx.jit(step))
        x = jnp.zeros((2, 2, D))
        fns[0](pooled(w.n)[0].merge(), x)
        fns[1](pooled(w.n)[0].merge(), x)
    return fns


def good(u):
    """Arguments of the shape the shared functions were compiled for."""
    u.fail = ""
    return u.x()


def o_jit(w, u):
    if u.k < 3:
        return jitted(w)[0](w.module, good(u))
    c = w.module.clone()
    return jitted(w)[1](c, good(u)), c


def o_own_jit(w, u):
    """A function of the reader's own over its own clone."""
    c = w.module.clone()
    f = nnx.jit(lambda m, x, ctx: m(x, ctx=ctx))
    return f(c, u.x(), ctx=u.ctx("train")), c


def o_repr(w, u):
    m = u.pick(w)
    return (repr([m, w.pure, w.state, w.parts, m.partition(), w.ts][u.k]), hash(m) == hash(m),
            hash(w.pure.moduledef) == hash(w.module.get_module_def()))


def o_containers(w, u):
    out = []
    for m in w.mods:
        if isinstance(m, nnx.Dict):
            out.append([m[k] for k in sorted(vars(m)) if not k.startswith("_")])
        elif isinstance(m, nnx.Sequence):
            out.append(([type(c).__name__ for c in m], len(m)))
            try:
                m[len(m)]
            except IndexError:
                out.append("end")
        m.for_each(nnx.Linear, lambda a: out.append(a.kernel))
        out.append({k: v.value for k, v in m.mutable_state_dict().items()})
    return out


def o_train_state(w, u):
    grads = jax.tree_map(lambda a: jnp.ones_like(a) * u.seed, w.ts.params)
    return w.ts.apply_gradients(grads), w.ts.replace(step=w.ts.step + 1)


OPS = {
    "call": (o_call, 5), "part call": (o_part_call, 3), "partition": (o_partition, 4), "filter": (o_filter, 3),
    "clone": (o_clone, 5), "apply": (o_apply, 8), "pure apply": (o_pure_apply, 5), "pure call": (o_pure_call, 4),
    "pure ops": (o_pure_ops, 2), "state ops": (o_state_ops, 2), "grad": (o_grad, 2), "trace": (o_trace, 2),
    "jit": (o_jit, 2), "repr": (o_repr, 2), "containers": (o_containers, 2), "train state": (o_train_state, 2),
}


def refuse(w, u):
    """Attempts to change the shared model from a thread that did not make it."""
    m = u.pick(w)
    k = u.k
    if k == 0:
        m.extra = 1
    elif k == 1:
        m.update_state(jax.tree_map(lambda a: a * 2, m.get_state()))
        raise nnx.TraceContextError("nothing to update") if not len(m.get_state()) else Violation(
            "foreign update accepted", "")
    elif k == 2:
        m.sow(nnx.Intermediate, "foreign", u.x())
    elif k == 3:
        n = len(m.get_state())
        m.pop_state(nnx.Variable, ...)
        if not n:
            raise nnx.TraceContextError("nothing to pop")
    elif not len(w.module.get_state()):
        # nothing that a call or a write-back could change
        w.module.extra = 1
    elif k == 4:
        w.module(u.x(), ctx=u.ctx("train"))
    else:
        jitted(w)[1](w.module, good(u))
    raise Violation("foreign change accepted", f"kind {k}")


def execute(op, w, u):
    """('ok', frozen result) or ('raised', type)."""
    try:
        return ("ok", freeze(op(w, u)))
    except Violation:
        raise
    except (Exception, *INJECTED) as e:  # noqa: BLE001
        return ("raised", type(e).__name__)


def same(r, what, w, before):
    now = w.frozen()
    for k, v in before.items():
        if now[k] != v:
            raise Violation(f"shared {k} changed", f"after {what}: {differ(v, now[k])}")


def run(r):
    n = r.draw(ARCHS)
    tracing = r.chance(500)
    tasks = 1 + r.weighted([(1, 5), (2, 3), (0, 2)])
    weights = [(k, v[1]) for k, v in OPS.items() if not (tracing and k == "jit")]
    plans = []
    for i in range(tasks):
        rr = r.sub(f"w{i}")
        todo = []
        for _ in range(2 + rr.draw(4 if tasks > 1 else 8)):
            if tasks > 1 and rr.chance(80):
                u = Use(rr)
                if u.k == 5:
                    if tracing:
                        u.k = 0
                    else:
                        jitted(World(n))
                todo.append(("refuse", u, None))
                continue
            if rr.chance(6) and n < 8:
                name, op = "own jit", o_own_jit
            else:
                name = rr.weighted(weights)
                op = OPS[name][0]
            u = Use(rr)
            # the answer of a reader that is alone with a model of its own
            alone = World(n)
            if name == "jit":
                jitted(alone)
            want = execute(op, alone, u)
            r.ev("plan", i, name, repr(u), want[0] if want[0] == "ok" else want[1])
            if want[0] == "raised":
                r.fault(f"reader fails: {want[1]}")
            todo.append((name, u, (op, want)))
        plans.append(todo)
    w = World(n)
    before = w.frozen()

    def reader(i, todo):
        def go():
            for name, u, job in todo:
                if job is None:
                    try:
                        refuse(w, u)
                    except nnx.TraceContextError:
                        r.probe("foreign change refused")
                    except Violation:
                        raise
                    except Exception:  # noqa: BLE001
                        r.probe("foreign change failed")
                    r.ev("refused", i, u.k)
                else:
                    op, want = job
                    got = execute(op, w, u)
                    r.probe(name)
                    r.ev("done", i, name, got[0] if got[0] == "ok" else got[1])
                    if got != want:
                        raise Violation(f"{name}: other answer than alone", f"{name} {u!r} {u.plan}: {differ(want, got)}")
                same(r, f"{name} {u!r} {u.plan if job else ''}", w, before)
                r.step()
                sched.point("between operations")

        return go

    if tasks == 1:
        reader(0, plans[0])()
    else:
        sched.threads(r, [(f"t{i}", reader(i, t)) for i, t in enumerate(plans)], preempt_tracing=tracing)
    pure, was = pooled(n)
    now = freeze(pure)
    if now != was:
        del POOL[n]
        raise Violation("source of the shared module changed", differ(was, now))
    r.nontrivial = sum(map(len, plans)) > 2
