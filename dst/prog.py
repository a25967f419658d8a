"""Random module graphs and programs over them, with a direct reference execution.

A program is a list of instructions (read, update, add variables, sow, call
transformed sub-functions). The real side runs it on nnx modules with jax values;
the reference side runs it on plain objects with numpy values, and computes
gradients with its own dual numbers. Values are small integers, so both agree
exactly.
"""
import numpy as np

from dst import model as M
from dst.core import HarnessError, Injected, InjectedInterrupt, Violation
from dst.model import RMod, RVar, nnx

MOD = 16.0


class Cell(nnx.Module):
    def __init__(self):
        pass


class Cell2(Cell):
    pass


# ------------------------------------------------------------------ dual numbers
class D:
    """Forward-mode dual number: value and a list of partial derivatives."""

    __slots__ = ("tag", "val", "g")

    def __init__(self, tag, val, g):
        self.tag, self.val, self.g = tag, val, g


def _tag(v):
    return v.tag if isinstance(v, D) else -1


def _parts(v, t, n):
    if _tag(v) == t:
        return v.val, v.g
    return v, [None] * n


def add(a, b):
    t = max(_tag(a), _tag(b))
    if t < 0:
        return exact(np.float32(1) * (np.asarray(a, np.float32) + np.asarray(b, np.float32)))
    n = len((a if _tag(a) == t else b).g)
    av, ag = _parts(a, t, n)
    bv, bg = _parts(b, t, n)
    v = add(av, bv)
    shp = shape(v)
    g = []
    for x, y in zip(ag, bg):
        if x is None and y is None:
            g.append(None)
        elif x is None:
            g.append(bcast(y, shp))
        elif y is None:
            g.append(bcast(x, shp))
        else:
            g.append(add(x, y))
    return D(t, v, g)


def mul(a, b):
    t = max(_tag(a), _tag(b))
    if t < 0:
        return exact(np.float32(1) * (np.asarray(a, np.float32) * np.asarray(b, np.float32)))
    n = len((a if _tag(a) == t else b).g)
    av, ag = _parts(a, t, n)
    bv, bg = _parts(b, t, n)
    g = []
    for x, y in zip(ag, bg):
        p = None if x is None else mul(x, bv)
        q = None if y is None else mul(av, y)
        g.append(q if p is None else p if q is None else add(p, q))
    return D(t, mul(av, bv), g)


def rem(a):
    if isinstance(a, D):
        return D(a.tag, rem(a.val), a.g)
    return np.fmod(np.asarray(a, np.float32), np.float32(MOD))


def total(a):
    if isinstance(a, D):
        return D(a.tag, total(a.val), [None if g is None else total(g) for g in a.g])
    return np.asarray(a, np.float32).sum(dtype=np.float32)


def bcast(v, shp):
    if isinstance(v, D):
        return D(v.tag, bcast(v.val, shp), [None if g is None else bcast(g, shp) for g in v.g])
    return np.broadcast_to(np.asarray(v, np.float32), shp)


class TooBig(Exception):
    """The reference left the range in which float32 integer arithmetic is exact."""


def exact(v):
    if v.size and v.max() > 4e6:
        raise TooBig
    return v


def shape(v):
    return shape(v.val) if isinstance(v, D) else np.shape(v)


def primal(v):
    if isinstance(v, D):
        return primal(v.val)
    if isinstance(v, tuple):
        return tuple(primal(x) for x in v)
    return v


_TAGS = 0


def ref_grad(fn, root, wrt):
    """Gradient of fn(copy of root) -> loss (or (loss, aux)) by the matched leaves.

    Returns (grads as a reference state, primal outputs, the copy after the call).
    """
    global _TAGS
    _TAGS += 1
    tag = _TAGS
    copy = M.copy_graph(root)
    entries = [(p, m, n, v) for p, m, n, v in M.iter_state(copy) if wrt.pred(p, v)]
    sizes = [int(np.prod(shape(M.leaf_value(v)), dtype=int)) for *_, v in entries]
    n = sum(sizes)
    k = 0
    for (p, m, name, v), s in zip(entries, sizes):
        val = M.leaf_value(v)
        g = [None] * n
        for j in range(s):
            e = np.zeros(s, np.float32)
            e[j] = 1
            g[k + j] = e.reshape(shape(val))
        k += s
        d = D(tag, val, g)
        if isinstance(v, RVar):
            m.attrs[name] = RVar(v.kind, d, v.meta)
        else:
            m.attrs[name] = d
    out = fn(copy)
    loss, aux = out if isinstance(out, tuple) else (out, None)
    if shape(loss) != ():
        raise HarnessError("loss is not a scalar")
    grads = {}
    k = 0
    _, g = _parts(loss, tag, n)
    for (p, m, name, v), s in zip(entries, sizes):
        shp = shape(M.leaf_value(v))
        parts = [np.float32(0) if x is None else x for x in g[k:k + s]]
        k += s
        if all(not isinstance(x, D) for x in parts):
            val = np.asarray(parts, np.float32).reshape(shp)
        else:
            # stack of duals of an outer gradient
            val = _stack(parts, shp)
        grads[p] = RVar(v.kind, val, v.meta) if isinstance(v, RVar) else val

    def strip(v):
        if isinstance(v, tuple):
            return tuple(strip(x) for x in v)
        return v.val if _tag(v) == tag else v

    for m in M.modules(copy):
        for name, v in list(m.attrs.items()):
            if isinstance(v, RVar):
                m.attrs[name] = RVar(v.kind, strip(v.value), v.meta)
            elif isinstance(v, D):
                m.attrs[name] = strip(v)
    return grads, strip(loss), None if aux is None else _map(strip, aux), copy


def _stack(parts, shp):
    t = max(_tag(x) for x in parts)
    n = len(next(x for x in parts if _tag(x) == t).g)
    vals, gs = [], [[] for _ in range(n)]
    for x in parts:
        v, g = _parts(x, t, n)
        vals.append(v)
        for i in range(n):
            gs[i].append(np.float32(0) if g[i] is None else g[i])
    if any(isinstance(v, D) for v in vals) or any(isinstance(y, D) for g in gs for y in g):
        raise HarnessError("gradients nested too deeply")
    return D(t, np.asarray(vals, np.float32).reshape(shp),
             [np.asarray(g, np.float32).reshape(shp) for g in gs])


def _map(f, x):
    if isinstance(x, (list, tuple)):
        return type(x)(_map(f, y) for y in x)
    if isinstance(x, dict):
        return {k: _map(f, v) for k, v in x.items()}
    return f(x)


# leaves of the reference may be duals while a gradient is computed
_is_array = M.is_array
M.is_array = lambda v: _is_array(v) or isinstance(v, (D, np.generic))


# ------------------------------------------------------------------ graphs
def gen_graph(run, max_modules=4, kinds=("Param", "Param", "BatchStat", "Cache", "Tag", None), shapes=((), (), (2,)),
              cycles=True, statics=True, inert=False):
    """A random module graph -> (real root, reference root)."""
    n = 1 + run.draw(max_modules)
    reals, refs = [], []
    leaf = run.pick([["v0", "v1", "v2", "v3"], ["v0", "v1", "v2", "v3"], ["_uv", "v0", "V", "v0x"]])
    pre = run.pick(["", "", "", "_u", "A"])
    for i in range(n):
        cls = run.pick([Cell, Cell2, nnx.Dict])
        reals.append(cls())
        refs.append(RMod(cls))
        k = run.draw(4)
        if i == 0:
            k += 1
        for j in range(k):
            kind = run.pick(kinds)
            v = M.refarr(float(1 + run.draw(7)), run.pick(shapes))
            if kind:
                meta = {"note": "n"} if run.chance(100) else {}
                v = RVar(kind, v, meta)
            put(reals[i], refs[i], leaf[j], v)
        if statics and run.chance(400):
            put(reals[i], refs[i], "k", run.pick([2, 3, 5]))
        if inert and run.chance(200):
            put(reals[i], refs[i], "z0", RVar("Node", gen_inert(run), {"note": "z"} if run.chance(300) else {}))
    for i in range(1, n):
        j = run.draw(i)
        link(reals, refs, j, i, f"{pre}m{i}")
    for e in range(run.draw(3)):
        a, b = run.draw(n), run.draw(n)
        if not cycles and b <= a:
            continue
        link(reals, refs, a, b, f"{pre}s{e}")
    return reals[0], refs[0]


def usable(name, v):
    """Can a program calculate with this attribute?"""
    return M.is_leaf(v) and not isinstance(M.leaf_value(v), tuple) and not name.startswith("z")


def gen_inert(run):
    """A value that programs only carry along."""
    a = np.full(run.pick([(), (2,), (1, 2)]), 1 + run.draw(7), run.pick([np.int32, np.float16, np.uint8, np.bool_]))
    return run.pick([a, a, {"p": a, "q": (M.refarr(2.0), None)}, (a, {}), None])


def put(real, ref, name, v):
    setattr(real, name, M.to_real(v))
    ref.attrs[name] = M.copy_leaf(v)


def link(reals, refs, a, b, name):
    setattr(reals[a], name, reals[b])
    refs[a].attrs[name] = refs[b]


def walk_path(run, ref, steps=3):
    """A random path of attribute names to a module, and that module."""
    path = []
    m = ref
    for _ in range(run.draw(steps + 1)):
        kids = sorted(n for n, v in m.attrs.items() if isinstance(v, RMod))
        if not kids:
            break
        n = run.pick(kids)
        path.append(n)
        m = m.attrs[n]
    return tuple(path), m


# ------------------------------------------------------------------ programs
class Body:
    """A generated function body."""

    __slots__ = ("instrs", "ret", "fit")

    def __init__(self, instrs, ret, fit=None):
        # fit: keep the shape of assigned leaves, and give new ones this shape
        self.instrs, self.ret, self.fit = instrs, ret, fit

    def __repr__(self):
        return f"{{{self.instrs} -> {self.ret}}}"


def gen_expr(run, ref, depth=0):
    c = run.draw(6 if depth < 2 else 3)
    if c == 0:
        return ("x",)
    if c in (1, 2):
        path, m = walk_path(run, ref)
        names = sorted(n for n, v in m.attrs.items() if usable(n, v))
        if not names:
            return ("x",)
        return ("leaf", path, run.pick(names))
    if c == 3:
        path, m = walk_path(run, ref)
        if "k" in m.attrs:
            return ("stat", path)
        return ("const", float(1 + run.draw(3)))
    if c == 4:
        return ("add", gen_expr(run, ref, depth + 1), gen_expr(run, ref, depth + 1))
    return ("mul", gen_expr(run, ref, depth + 1), gen_expr(run, ref, depth + 1))


WEIGHTS = {"set": 6, "new": 2, "sow": 1, "pop": 1, "nested": 2, "point": 2, "exec": 1, "rng": 2, "grow": 2}


def gen_body(run, ref, depth=0, allow=("set", "new", "sow", "nested", "point"), max_instrs=4,
             nested_kinds=("jit", "remat", "grad"), grads=0, fit=None):
    """Generates against (and symbolically extends) a scratch copy of the reference."""
    instrs = []
    for _ in range(1 + run.draw(max_instrs)):
        k = run.weighted([(a, WEIGHTS[a]) for a in allow])
        if k == "set":
            path, m = walk_path(run, ref)
            names = sorted(n for n, v in m.attrs.items() if usable(n, v))
            if not names:
                continue
            name = run.pick(names)
            instrs.append(("set", path, name, gen_expr(run, ref)))
        elif k == "new":
            path, m = walk_path(run, ref)
            i = run.draw(2)
            name = f"n{i}"
            # once: only created if it is not there yet
            instrs.append(("new", path, name, ["Cache", "BatchStat"][i], gen_expr(run, ref), run.chance(500)))
            if name not in m.attrs:
                m.attrs[name] = RVar(["Cache", "BatchStat"][i], M.refarr(0.0))
        elif k == "sow":
            path, m = walk_path(run, ref)
            instrs.append(("sow", path, "log", gen_expr(run, ref)))
            m.attrs.setdefault("log", RVar("Intermediate", (M.refarr(0.0),)))
        elif k == "grow":
            # a new submodule, possibly in place of a variable
            path, m = walk_path(run, ref)
            names = sorted(n for n, v in m.attrs.items() if usable(n, v))
            name = run.pick(names) if names and run.chance(300) else run.pick(["A", "g0", "zz"])
            instrs.append(("grow", path, name, gen_expr(run, ref)))
            m.attrs[name] = grown(M.refarr(0.0))
        elif k == "pop":
            path, m = walk_path(run, ref)
            instrs.append(("pop", path))
            ref_pop(m)
        elif k == "nested" and depth < 2:
            path, m = walk_path(run, ref)
            kind = run.pick([k for k in nested_kinds if k != "grad" or grads < 2])
            wrt = gen_wrt(run) if kind == "grad" else None
            arg = gen_expr(run, ref)
            sub = gen_body(run, m, depth + 1, allow=allow, max_instrs=2, nested_kinds=nested_kinds,
                           grads=grads + (kind == "grad"), fit=fit)
            instrs.append(("nested", kind, path, sub, arg, wrt, run.chance(300), run.chance(600)))
        elif k in ("point", "exec"):
            instrs.append((k,))
        elif k == "rng":
            instrs.append(("rng", run.pick(["params", "dropout"])))
    ret = [gen_expr(run, ref) for _ in range(1 + run.draw(2))]
    return Body(instrs, ret, fit)


def grown(v):
    m = RMod(Cell)
    m.attrs["v0"] = RVar("Param", v)
    return m


def gen_wrt(run):
    c = run.draw(6)
    if c <= 1:
        return M.kind_filter("Param")
    if c == 5:
        return M.F("nothing", lambda p, x: False, lambda p, v: False)
    if c == 2:
        return M.any_filter(M.kind_filter("Param"), M.kind_filter("BatchStat"))
    if c == 3:
        return M.F("not-log", lambda p, x: "log" not in p and "v0" in p, lambda p, v: "log" not in p and "v0" in p)
    return M.all_filter(M.kind_filter("Variable"), M.not_filter(M.kind_filter("Intermediate")))


class Armed:
    """The user-level fault of one call: acts at the n-th point reached."""

    def __init__(self, run, at, action):
        self.run, self.at, self.action = run, at, action
        self.seen = 0
        self.fired = False

    def hit(self, where):
        self.seen += 1
        if self.at is not None and self.seen == self.at and self.action != "exec":
            self.fired = True
            self.run.fault(f"{self.action} in user function at {where}")
            ACTIONS[self.action]()


def _raise(exc):
    def act():
        raise exc("user function")

    return act


def _bad_shape():
    import jax.numpy as jnp

    jnp.ones((2,)) + jnp.ones((3,))
    raise HarnessError("shapes were compatible")


def _concretize():
    import jax
    import jax.numpy as jnp

    jax.jit(lambda x: float(x))(jnp.ones(()))
    raise HarnessError("a tracer was concrete")


ACTIONS = {
    "exception": _raise(Injected),
    "interrupt": _raise(InjectedInterrupt),
    "shape error": _bad_shape,
    "concretization error": _concretize,
}


class Holder:
    """Mutable cell through which a traced function finds the current fault."""

    armed = None

    def hit(self, where):
        if self.armed is not None:
            self.armed.hit(where)

    def exec_hit(self, *args):
        """Runs as a host callback when the compiled function executes."""
        a = self.armed
        if a is not None and a.action == "exec":
            a.seen += 1
            if a.seen == a.at:
                a.fired = True
                a.run.fault("failure while executing")
                raise Injected("executing")
        return np.float32(0)


def resolve_real(m, path):
    for n in path:
        m = getattr(m, n)
    return m


def real_expr(e, m, x):
    k = e[0]
    if k == "x":
        return x
    if k == "leaf":
        return getattr(resolve_real(m, e[1]), e[2])
    if k == "stat":
        return float(resolve_real(m, e[1]).k)
    if k == "const":
        return e[1]
    a, b = real_expr(e[1], m, x), real_expr(e[2], m, x)
    if isinstance(a, float) and isinstance(b, float):
        return a + b if k == "add" else a * b
    return a + b if k == "add" else a * b


def wrap(v):
    import jax
    import jax.numpy as jnp

    return jax.lax.rem(jnp.asarray(v, jnp.float32), jnp.asarray(MOD, jnp.float32))


def fit(v, shp):
    """Gives a value a shape: unchanged, broadcast, or summed first."""
    import jax.numpy as jnp

    if jnp.shape(v) == tuple(shp):
        return v
    if jnp.shape(v) != ():
        v = jnp.sum(v)
    return jnp.broadcast_to(v, shp)


def ref_fit(v, shp):
    if shape(v) == tuple(shp):
        return v
    if shape(v) != ():
        v = total(v)
    return bcast(v, shp)


def take(v, i, axis):
    if isinstance(v, tuple):
        return tuple(take(x, i, axis) for x in v)
    if isinstance(v, D):
        return D(v.tag, take(v.val, i, axis), [None if g is None else take(g, i, axis) for g in v.g])
    return np.take(np.asarray(v), i, axis)


def stack(vs, axis):
    if isinstance(vs[0], tuple):
        return tuple(stack(x, axis) for x in zip(*vs))
    t = max(_tag(v) for v in vs)
    if t < 0:
        return np.stack([np.asarray(v) for v in vs], axis)
    n = len(next(v for v in vs if _tag(v) == t).g)
    vals, gs = [], []
    for v in vs:
        a, g = _parts(v, t, n)
        vals.append(a)
        gs.append([np.zeros(shape(a), np.float32) if x is None else x for x in g])
    return D(t, stack(vals, axis), [stack([g[j] for g in gs], axis) for j in range(n)])


def ref_expr(e, m, x):
    k = e[0]
    if k == "x":
        return x
    if k == "leaf":
        return M.leaf_value(M.resolve(m, e[1]).attrs[e[2]])
    if k == "stat":
        return np.float32(M.resolve(m, e[1]).attrs["k"])
    if k == "const":
        return np.float32(e[1])
    a, b = ref_expr(e[1], m, x), ref_expr(e[2], m, x)
    return add(a, b) if k == "add" else mul(a, b)


def make_real(body, holder, depth=0):
    """The Python function of a body; nested transforms are built once."""
    subs = {}
    for i, ins in enumerate(body.instrs):
        if ins[0] == "nested":
            kind, sub, wrt = ins[1], ins[3], ins[5]
            f = make_real(sub, holder, depth + 1)
            if kind == "jit":
                subs[i] = nnx.jit(f)
            elif kind == "remat":
                subs[i] = nnx.remat(f)
            else:
                subs[i] = nnx.grad(_loss(f), wrt=wrt.real, has_aux=True)

    def fn(m, x, *, ctx=None):
        import jax
        import jax.numpy as jnp

        holder.hit(f"depth {depth}")
        for i, ins in enumerate(body.instrs):
            k = ins[0]
            if k == "set":
                t = resolve_real(m, ins[1])
                v = wrap(real_expr(ins[3], m, x))
                if body.fit is not None:
                    v = fit(v, jnp.shape(getattr(t, ins[2])))
                setattr(t, ins[2], v)
            elif k == "new":
                t = resolve_real(m, ins[1])
                v = wrap(real_expr(ins[4], m, x))
                if body.fit is not None:
                    v = fit(v, body.fit)
                if hasattr(t, ins[2]):
                    if not ins[5]:
                        setattr(t, ins[2], v)
                else:
                    setattr(t, ins[2], M.KINDS[ins[3]](v))
            elif k == "grow":
                t = resolve_real(m, ins[1])
                new = Cell()
                new.v0 = nnx.Param(wrap(real_expr(ins[3], m, x)))
                if hasattr(t, ins[2]):
                    delattr(t, ins[2])
                setattr(t, ins[2], new)
            elif k == "sow":
                v = wrap(real_expr(ins[3], m, x))
                resolve_real(m, ins[1]).sow(nnx.Intermediate, ins[2], v if body.fit is None else fit(v, body.fit))
            elif k == "pop":
                for v in resolve_real(m, ins[1]).pop_state(nnx.Intermediate).values():
                    for y in v.value:
                        x = x + jnp.sum(y)
            elif k == "point":
                holder.hit(f"depth {depth}")
            elif k == "exec":
                x = x + jax.pure_callback(holder.exec_hit, jax.ShapeDtypeStruct((), jnp.float32))
            elif k == "rng":
                if ctx is not None:
                    x = x + key_value(ctx.make_rng(ins[1]))
            elif k == "nested":
                t = resolve_real(m, ins[2])
                y = wrap(real_expr(ins[4], m, x))
                if ins[1] == "grad":
                    grads, out = subs[i](t, y)
                    if ins[6]:
                        # a training step: feed the gradients back into the module
                        cur = t.get_state()
                        cur = nnx.State({p: cur[p] for p in grads})
                        t.update_state(jax.tree_map(lambda p, g: wrap(p + 2 * g), cur, grads))
                elif ctx is not None and ins[7]:
                    out = subs[i](t, y, ctx=ctx)
                else:
                    out = subs[i](t, y)
                x = x + jnp.sum(wrap(out[0]))
                holder.hit(f"depth {depth}")
        return tuple(wrap(real_expr(e, m, x)) for e in body.ret)

    fn.__name__ = f"body{depth}"
    return fn


def _loss(f, aux=True):
    import jax.numpy as jnp

    def loss(m, x):
        out = f(m, x)
        return (jnp.sum(out[0]), out) if aux else jnp.sum(out[0])

    return loss


def key_value(key):
    """A small exact number that identifies a key fairly well."""
    import jax.numpy as jnp

    key = jnp.asarray(key)
    return ((key[0] ^ (key[1] >> 7)) % 13).astype(jnp.float32)


def ref_key_value(key):
    key = np.asarray(key)
    return np.float32((int(key[0]) ^ (int(key[1]) >> 7)) % 13)


def run_ref(body, m, x, ctx=None):
    """Direct execution on the reference graph m (edited in place)."""
    for ins in body.instrs:
        k = ins[0]
        if k == "set":
            t = M.resolve(m, ins[1])
            v = rem(ref_expr(ins[3], m, x))
            if body.fit is not None:
                v = ref_fit(v, shape(M.leaf_value(t.attrs[ins[2]])))
            M.set_attr(t, ins[2], v)
        elif k == "new":
            t = M.resolve(m, ins[1])
            v = rem(ref_expr(ins[4], m, x))
            if body.fit is not None:
                v = ref_fit(v, body.fit)
            if ins[2] in t.attrs:
                if not ins[5]:
                    M.set_attr(t, ins[2], v)
            else:
                t.attrs[ins[2]] = RVar(ins[3], v)
        elif k == "grow":
            v = rem(ref_expr(ins[3], m, x))
            M.resolve(m, ins[1]).attrs[ins[2]] = grown(v)
        elif k == "sow":
            t = M.resolve(m, ins[1])
            v = rem(ref_expr(ins[3], m, x))
            if body.fit is not None:
                v = ref_fit(v, body.fit)
            cur = t.attrs.get(ins[2])
            t.attrs[ins[2]] = RVar("Intermediate", (v,) if cur is None else cur.value + (v,))
        elif k == "pop":
            for v in ref_pop(M.resolve(m, ins[1])):
                for y in v.value:
                    x = add(x, total(y))
        elif k == "rng":
            if ctx is not None:
                x = add(x, ref_key_value(ctx.make_rng(ins[1])))
        elif k == "nested":
            t = M.resolve(m, ins[2])
            y = rem(ref_expr(ins[4], m, x))
            if ins[1] == "grad":
                grads, out = ref_grad_call(ins[3], t, y, ins[5])
                if ins[6]:
                    for p, g in grads.items():
                        *mp, n = p.split("/")
                        h = M.resolve(t, mp)
                        M.set_attr(h, n, rem(add(M.leaf_value(h.attrs[n]), mul(np.float32(2), M.leaf_value(g)))))
            elif ctx is not None and ins[7]:
                out = ref_call(ins[3], t, y, ctx=fork(ctx))
            else:
                out = ref_call(ins[3], t, y)
            x = add(x, total(rem(out[0])))
    return tuple(rem(ref_expr(e, m, x)) for e in body.ret)


def ref_pop(m):
    """Removes the values sown anywhere below m and returns their variables."""
    out = []
    for _, t, n, v in M.iter_state(m):
        if isinstance(v, RVar) and v.kind == "Intermediate":
            out.append(v)
            del t.attrs[n]
    return out


def write_back(root, copy):
    kept = M.state_of(copy)
    for p, m, n, v in M.iter_state(root):
        if p not in kept or (isinstance(v, RVar) and not (isinstance(kept[p], RVar) and v.compatible(kept[p]))):
            # removed, or replaced by a variable of another kind
            del m.attrs[n]
    for p, v in kept.items():
        *mp, n = p.split("/")
        t, c = root, copy
        for part in mp:
            c = c.attrs[part]
            if not isinstance(t.attrs.get(part), RMod):
                t.attrs[part] = c  # grown
            t = t.attrs[part]
        M.set_attr(t, n, v)


def fork(ctx):
    """What a transform makes of the context it is given."""
    return ctx.partition().merge()


def ref_call(body, root, x, stateful=True, ctx=None):
    copy = M.copy_graph(root)
    out = run_ref(body, copy, x, ctx)
    if stateful:
        write_back(root, copy)
    return out


def ref_grad_call(body, root, x, wrt, stateful=True):
    def loss(c):
        out = run_ref(body, c, x)
        return total(out[0]), out

    grads, _, aux, copy = ref_grad(loss, root, wrt)
    if stateful:
        write_back(root, copy)
    return grads, aux


def out_diff(real, ref):
    if not isinstance(real, tuple) or len(real) != len(ref):
        return f"{M.desc(real)} instead of {len(ref)} outputs"
    for i, (a, b) in enumerate(zip(real, ref)):
        d = M.value_diff(a, np.asarray(primal(b)))
        if d:
            return f"output {i}: {d}"
    return None


# ------------------------------------------------------------------ faults at the jax seam
class Seam:
    """Makes a jax entry point fail on demand, before or after it has run.

    The entry points are wrapped only while transforms are being built or called
    by the simulation, and behave as usual unless a failure is armed.
    """

    NAMES = [("jax", "jit"), ("jax", "grad"), ("jax", "checkpoint"), ("jax", "eval_shape"), ("jax", "vmap")]

    def __init__(self, run):
        self.run = run
        self.armed = None  # (name, "before"/"after", nth)
        self.count = 0
        self.fired = False

    def arm(self, name, when, nth=1):
        self.armed, self.count, self.fired = (name, when, nth), 0, False

    def disarm(self):
        fired, self.armed, self.fired = self.fired, None, False
        return fired

    def _maybe(self, name, when):
        if self.armed is None or self.armed[:2] != (name, when):
            return
        self.count += 1
        if self.count == self.armed[2]:
            self.fired = True
            self.run.fault(f"{name} fails {when} executing")
            raise Injected(f"{name} {when}")

    def wrap_transform(self, name, orig):
        """For jit/grad/checkpoint/vmap: the returned function may fail."""
        seam = self

        def transform(fun, *a, **kw):
            inner = orig(fun, *a, **kw)

            def call(*args, **kwargs):
                seam._maybe(name, "before")
                out = inner(*args, **kwargs)
                seam._maybe(name, "after")
                return out

            for attr in ("lower",):
                if hasattr(inner, attr):
                    setattr(call, attr, getattr(inner, attr))
            return call

        return transform

    def wrap_call(self, name, orig):
        seam = self

        def call(*args, **kwargs):
            seam._maybe(name, "before")
            out = orig(*args, **kwargs)
            seam._maybe(name, "after")
            return out

        return call

    def __enter__(self):
        import jax

        self.saved = [(jax, n, getattr(jax, n)) for n in ("jit", "grad", "checkpoint", "vmap", "eval_shape")]
        self.saved.append((jax.lax, "scan", jax.lax.scan))
        for o, n, f in self.saved:
            w = self.wrap_call(n, f) if n in ("eval_shape", "scan") else self.wrap_transform(n, f)
            setattr(o, n, w)
        return self

    def __exit__(self, *exc):
        for o, n, f in self.saved:
            setattr(o, n, f)
