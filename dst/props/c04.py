"""C04: nnx.scan and nnx.Scan against step-by-step execution, with failing calls.

A run draws a module graph, a split of its variables into scanned, broadcast and
carried groups, a body, and every other option of the scan; then a history of
calls, some of which are made to fail in the body, in tracing, at the jax entry
points, in the executing computation, or by a wrong configuration.
"""
import jax
import jax.numpy as jnp
import numpy as np

from dst import model as M, prog as P
from dst.core import Violation
from dst.model import RMod, RVar, Refused, nnx


class Starts:
    """A filter of stream names that is a function."""

    def __init__(self, letter):
        self.letter = letter

    def __call__(self, name):
        return name.startswith(self.letter)

    def __repr__(self):
        return f"starts {self.letter}"


class Group:
    def __init__(self, f, axis):
        self.f, self.axis = f, axis


AXES = [0, 0, 0, 0, 1, -1, 1, -1, 2, -2]
BLOCK = np.arange(6, dtype=np.float32).reshape(3, 2)


def enough(axis, base):
    """base, or the smallest shape into which an axis can be inserted there."""
    need = axis if axis >= 0 else -axis - 1
    return base if len(base) >= need else (3, 2)[2 - need:]


def widest(cfg):
    shape = ()
    for g in cfg.groups:
        shape = enough(g.axis, shape)
    return shape


def matches(f, name):
    if isinstance(f, dict):
        return any(matches(k, name) for k, v in f.items() if v)
    if isinstance(f, (tuple, list)):
        return any(matches(k, name) for k in f)
    return f is ... or f == name or (isinstance(f, Starts) and name.startswith(f.letter))


class Config:
    """Every option of one scanned function."""

    def __init__(self, r, length):
        self.length = length
        self.groups = []
        kinds = ["Param", "BatchStat", "Cache", "Tag"]
        for _ in range(r.pick([1, 1, 2, 0])):
            c = r.draw(5)
            if c <= 2:
                f = M.kind_filter(r.pick(kinds))
            elif c == 3:
                f = M.any_filter(M.kind_filter(r.pick(kinds)), M.kind_filter(r.pick(kinds)))
            else:
                f = M.path_filter(r.pick(["v0", "v1", "m1"]))
            if all(g.f.real != f.real for g in self.groups):
                self.groups.append(Group(f, r.pick(AXES)))
        self.sow = r.chance(300)
        if self.sow:
            self.groups.append(Group(M.kind_filter("Intermediate"), 0))
        c = r.draw(4)
        self.broadcast = (M.NONE if c <= 1 else M.kind_filter(r.pick(kinds)) if c == 2 else M.path_filter(r.pick(["v1", "m2"])))
        self.carry = M.REST if not r.chance(60) else r.pick([M.NONE, M.kind_filter("Param"), M.kind_filter("Variable")])
        self.meta = not r.chance(750) and all(g.axis >= 0 for g in self.groups)
        self.split = r.pick([None, "dropout", "params", ("params", "dropout"), ..., ["dropout"], Starts("d"),
                             (Starts("p"), None), {"dropout": True, "params": False}, {"params": True, Starts("x"): True}])
        self.reverse = r.chance(400)
        self.unroll = r.pick([1, 1, 2, 3, 8])
        self.xs = r.pick(["array", "tuple", "dict", "none"])
        self.in_axes = {"array": lambda: r.pick(AXES),
                        "tuple": lambda: r.pick([0, (0, 1), (1, 0), (-1, -1), (2, 0), (1, 2), (-2, 1)]),
                        "dict": lambda: r.pick([0, {"p": 1, "q": 0}, {"p": -1, "q": 2}]),
                        "none": lambda: 0}[self.xs]()
        self.out_axes = r.pick([0, 0, -1, "tuple"])
        self.pass_length = r.chance(500) or self.xs == "none"
        self.extra = r.pick([(), (2.0,), (2.0, "kw")])
        self.carry_tree = r.pick(["scalar", "dict"])
        # one more output, of rank 2
        self.block = r.chance(400)

    def options(self, r, n_out):
        if self.out_axes == "tuple":
            self.out_axes = tuple([r.pick([0, -1, 0, 0, -1, 0, 1]) for _ in range(n_out)] +
                                  [r.pick([0, 1, 2, -1, -2, -3])] * self.block)
        kw = dict(variable_axes={g.f.real: g.axis for g in self.groups}, variable_broadcast=self.broadcast.real,
                  variable_carry=self.carry.real, split_rngs=self.split, in_axes=self.in_axes, out_axes=self.out_axes,
                  length=self.length if self.pass_length else None, reverse=self.reverse, unroll=self.unroll)
        if self.meta:
            kw["metadata_params"] = {nnx.PARTITION_NAME: "layers"}
        return kw

    def group_of(self, p, v):
        for i, g in enumerate(self.groups):
            if g.f.pred(p, v):
                return i
        if self.broadcast.pred(p, v):
            return "b"
        if self.carry.pred(p, v):
            return "c"
        raise Refused("non-exhaustive filters")

    def wants_split(self, name):
        return matches(self.split, name)

    def __repr__(self):
        return (f"groups={[(g.f, g.axis) for g in self.groups]} b={self.broadcast} c={self.carry} meta={self.meta} "
                f"split={self.split} reverse={self.reverse} unroll={self.unroll} xs={self.xs} in={self.in_axes} "
                f"out={self.out_axes} len={self.pass_length} extra={self.extra} carry={self.carry_tree}"
                f"{' block' * self.block}")


# ------------------------------------------------------------------ values
def values(r, shape, lo=0, hi=7):
    n = int(np.prod(shape, dtype=int))
    return np.asarray([lo + r.draw(hi - lo + 1) for _ in range(n)], np.float32).reshape(shape)


def insert(shape, axis, n):
    shape = list(shape)
    if axis < 0:
        axis = len(shape) + 1 + axis
    shape.insert(axis, n)
    return tuple(shape)


def prepare(r, real, ref, cfg):
    """Gives every leaf a value of the shape its group needs."""
    for p, m, n, v in M.iter_state(ref):
        try:
            g = cfg.group_of(p, v)
        except Refused:
            continue
        base = P.shape(M.leaf_value(v))
        meta = dict(v.meta) if isinstance(v, RVar) else {}
        if isinstance(g, int):
            axis = cfg.groups[g].axis
            base = enough(axis, base)
            full = insert(base, axis, cfg.length)
            if cfg.meta and meta:
                names = list("abc"[:len(base)])
                names.insert(axis, "layers")
                meta = {"sharding": tuple(names)}
        else:
            full = base
        val = values(r, full)
        owner = owner_of(real, ref, m)
        vars(owner).pop(n)
        if isinstance(v, RVar):
            new = RVar(v.kind, val, meta)
            setattr(owner, n, M.KINDS[v.kind](jnp.asarray(val), **meta))
        else:
            new = val
            setattr(owner, n, jnp.asarray(val))
        m.attrs[n] = new


def put_logs(r, real, ref, cfg):
    """Values sown before the scan, which its body may pop."""
    paths = {id(m): p.rsplit("/", 1)[0] + "/" if "/" in p else "" for p, m, _, _ in M.iter_state(ref)}
    for m in M.modules(ref):
        if id(m) not in paths or not r.chance(600):
            continue
        log = RVar("Intermediate", (np.float32(0),))
        axis = cfg.groups[cfg.group_of(paths[id(m)] + "log", log)].axis
        vals = []
        for _ in range(1 + r.draw(2)):
            base = enough(axis, r.pick([(), (2,)]))
            vals.append(values(r, insert(base, axis, cfg.length)))
        m.attrs["log"] = RVar("Intermediate", tuple(vals))
        setattr(owner_of(real, ref, m), "log", nnx.Intermediate(tuple(jnp.asarray(v) for v in vals)))


def owner_of(real, ref, target):
    seen = set()

    def go(a, b):
        if b is target:
            return a
        if id(b) in seen:
            return None
        seen.add(id(b))
        for n, v in b.attrs.items():
            if isinstance(v, RMod):
                x = go(getattr(a, n), v)
                if x is not None:
                    return x
        return None

    return go(real, ref)


def gen_xs(r, cfg, length):
    shapes = [r.pick([(), (2,), (2,), (3, 2)]) for _ in range(2)]
    if cfg.xs == "none":
        return None
    if cfg.xs == "array":
        axes = [cfg.in_axes]
    elif cfg.xs == "tuple":
        axes = cfg.in_axes if isinstance(cfg.in_axes, tuple) else (cfg.in_axes,) * 2
    else:
        axes = (cfg.in_axes["p"], cfg.in_axes["q"]) if isinstance(cfg.in_axes, dict) else (cfg.in_axes,) * 2
    vals = []
    for a, s in zip(axes, shapes):
        s = enough(a, s)
        vals.append((values(r, insert(s, a, length)), a))
    return vals


def as_xs(cfg, vals, f):
    if vals is None:
        return None
    v = [f(x) for x, _ in vals]
    return v[0] if cfg.xs == "array" else tuple(v) if cfg.xs == "tuple" else {"p": v[0], "q": v[1]}


# ------------------------------------------------------------------ the scanned function
def adapt_real(f, cfg, holder):
    """fn(module, carry, xs, *extra) built on a program body."""

    def scanned(m, c, x, *extra, ctx=None, kw=None):
        for p, leaf in m.get_state().items():
            if isinstance(leaf, nnx.Variable) and getattr(leaf, "sharding", None) is not None:
                holder.meta[p] = leaf.sharding
        parts = [jnp.sum(v) for v in jax.tree_util.tree_leaves((c, x))]
        v = P.wrap(sum(parts, jnp.float32(0)) + sum(extra) + (kw or 0.0))
        out = f(m, v, ctx=ctx)
        new = jax.tree_map(lambda a: P.wrap(a + jnp.sum(out[0])), c)
        if holder.bad_carry:
            holder.bad_fired = True
            new = jax.tree_map(lambda a: jnp.stack([a, a]), new)
        if cfg.block:
            out = (*out, P.fit(out[0], (3, 2)) + BLOCK)
        return new, out

    return scanned


def adapt_ref(body, cfg, m, c, x, extra, kw, ctx):
    v = np.float32(0)
    for a in c.values():
        v = P.add(v, P.total(a))
    for a in x:
        v = P.add(v, P.total(a))
    v = P.add(v, np.float32(sum(extra) + (kw or 0.0)))
    out = P.run_ref(body, m, P.rem(v), ctx)
    t = P.total(out[0])
    if cfg.block:
        out = (*out, P.add(P.ref_fit(out[0], (3, 2)), BLOCK))
    return {k: P.rem(P.add(a, t)) for k, a in c.items()}, out


def shape_of(v):
    v = M.leaf_value(v)
    return tuple(P.shape(x) for x in v) if isinstance(v, tuple) else P.shape(v)


def with_value(v, new):
    return RVar(v.kind, new, v.meta) if isinstance(v, RVar) else new


def strip_meta(v):
    if isinstance(v, RVar) and v.meta.get("sharding") is not None:
        return RVar(v.kind, v.value, {"sharding": tuple(x for x in v.meta["sharding"] if x != "layers")})
    return v


def ref_scan(cfg, body, root, carry, xs, kw, ctxs):
    """Applies the body step by step to the reference graph, then commits."""
    entries = [(p, v, cfg.group_of(p, v)) for p, _, _, v in M.iter_state(root)]
    lengths = set()
    for p, v, g in entries:
        if isinstance(g, int):
            for s in (shape_of(v) if isinstance(M.leaf_value(v), tuple) else [shape_of(v)]):
                lengths.add(s[cfg.groups[g].axis])
    for val, a in xs or ():
        lengths.add(P.shape(val)[a])
    if cfg.pass_length:
        lengths.add(cfg.length)
    if len(lengths) != 1:
        raise Refused("length")
    length = lengths.pop()
    skel = M.skeleton(root)
    bcast = {p: v for p, v, g in entries if g == "b"}
    carried = {p: v for p, v, g in entries if g == "c"}
    axes = {p: (v, cfg.groups[g].axis) for p, v, g in entries if isinstance(g, int)}
    c = carry
    outs, stacked = [], []
    first = set(p for p, _, _ in entries)
    created = {}
    order = range(length - 1, -1, -1) if cfg.reverse else range(length)
    for n, t in enumerate(order):
        sl = {p: strip_meta(with_value(v, P.take(M.leaf_value(v), t, a))) for p, (v, a) in axes.items()}
        step = M.merge(skel, sl, bcast, carried)
        x = [P.take(val, t, a) for val, a in xs or ()]
        c, out = adapt_ref(body, cfg, step, c, x, cfg.extra[:1], kw, ctxs(t) if ctxs else None)
        outs.append(out)
        got = {}
        for p, _, _, v in M.iter_state(step):
            g = cfg.group_of(p, v)
            if isinstance(g, int):
                got[p] = (v, g)
            elif g == "b":
                if p not in bcast:
                    bcast[p] = v
                    created[p] = v
            else:
                if p in carried and shape_of(carried[p]) != shape_of(v):
                    raise Refused("carry changes shape")
                carried[p] = v
        stacked.append(got)
    if cfg.reverse:
        outs.reverse()
        stacked.reverse()
    result = {}
    for p in stacked[0]:
        v, g = stacked[0][p]
        axis = cfg.groups[g].axis
        vals = [s[p][0] for s in stacked]
        if len({shape_of(x) for x in vals}) != 1:
            raise Refused("steps differ")
        check_axis([M.leaf_value(v)] if not isinstance(M.leaf_value(v), tuple) else M.leaf_value(v), axis)
        new = P.stack([M.leaf_value(x) for x in vals], axis)
        if isinstance(v, RVar) and v.meta.get("sharding") is not None:
            names = list(v.meta["sharding"])
            names.insert(axis, "layers")
            v = RVar(v.kind, v.value, {"sharding": tuple(names)})
        result[p] = with_value(v, new)
    result.update(carried)
    result.update(created)
    oa = cfg.out_axes if isinstance(cfg.out_axes, tuple) else (cfg.out_axes,) * len(outs[0])
    ys = []
    for i, a in enumerate(oa):
        check_axis([outs[0][i]], a)
        ys.append(P.stack([o[i] for o in outs], a))
    for p in axes:
        if p not in result:
            *mp, n = p.split("/")
            del M.resolve(root, mp).attrs[n]
    for p, v in result.items():
        *mp, n = p.split("/")
        m = M.resolve(root, mp)
        m.attrs[n] = v
    return c, tuple(ys)


def check_axis(vals, axis):
    for v in vals:
        n = len(P.shape(v)) + 1
        if not -n <= axis < n:
            raise Refused("axis out of range")


# ------------------------------------------------------------------ the module forms
class Layer(nnx.Module):
    """Built through nnx.Scan or a decorated __init__: variables as listed in SPEC."""

    def __init__(self, *, ctx=None):
        build_real(self, SPEC[0], ctx)

    def body(self, c, x, *extra, ctx=None, kw=None):
        return SPEC[1](self, c, x, *extra, ctx=ctx, kw=kw)

    def __call__(self, c, x, *extra, ctx=None, kw=None):
        return SPEC[1](self, c, x, *extra, ctx=ctx, kw=kw)


class Part(nnx.Module):
    def __init__(self, spec, ctx):
        build_real(self, spec, ctx)


SPEC = [None, None]


def build_real(m, spec, ctx):
    for name, what in spec:
        if isinstance(what, list):
            setattr(m, name, Part(what, ctx))
        elif what == "self":
            setattr(m, name, m)
        elif isinstance(what, int):
            setattr(m, name, what)
        else:
            kind, shape, src, meta = what
            if src in ("params", "dropout"):
                v = jnp.broadcast_to(P.key_value(ctx.make_rng(src)), shape)
            else:
                v = jnp.full(shape, src, jnp.float32)
            setattr(m, name, v if kind is None else M.KINDS[kind](v, **meta))


def build_ref(m, spec, ctx):
    for name, what in spec:
        if isinstance(what, list):
            m.attrs[name] = RMod(Part)
            build_ref(m.attrs[name], what, ctx)
        elif what == "self":
            m.attrs[name] = m
        elif isinstance(what, int):
            m.attrs[name] = what
        else:
            kind, shape, src, meta = what
            if src in ("params", "dropout"):
                v = np.full(shape, P.ref_key_value(ctx.make_rng(src)), np.float32)
            else:
                v = np.full(shape, src, np.float32)
            m.attrs[name] = v if kind is None else RVar(kind, v, meta)


def gen_spec(r, cfg, has_ctx, depth=0):
    spec = []
    for i in range(1 + r.draw(3)):
        kind = r.pick(["Param", "Param", "BatchStat", "Cache", "Tag", None])
        src = r.pick(["params", "dropout", 3.0]) if has_ctx else float(1 + r.draw(5))
        shape = r.pick([(), (2,)])
        if widest(cfg):
            shape = widest(cfg)
        meta = {}
        if cfg.meta and kind and r.chance(500):
            meta = {"sharding": tuple("ab"[:len(shape)])}
        name = "_uv" if i == 1 and r.chance(300) else f"v{i}"
        spec.append((name, (kind, shape, src, meta)))
    if r.chance(300):
        spec.append(("k", r.pick([2, 3])))
    if depth == 0:
        if r.chance(400):
            spec.append(("m1", gen_spec(r, cfg, has_ctx, 1)))
        if r.chance(200):
            spec.append(("s0", "self"))
    return spec


def step_contexts(cfg, rctx):
    pure = rctx.partition()
    keys = dict(pure.keys)
    split = {n: jax.random.split(k, cfg.length) for n, k in keys.items() if cfg.wants_split(n)}

    def at(t):
        return pure.contextdef.merge({n: split[n][t] if n in split else keys[n] for n in keys})

    return at


def ref_construct(cfg, spec, rctx, cls):
    """Step-by-step construction -> reference module."""
    if cfg.groups and not cfg.pass_length:
        raise Refused("length")
    ctxs = step_contexts(cfg, rctx) if rctx is not None else None
    steps = []
    vmapped = cfg.groups or ctxs
    n = cfg.length if vmapped else 1
    for t in range(n):
        m = RMod(cls)
        build_ref(m, spec, ctxs(t) if ctxs else None)
        steps.append(m)
    root = steps[0]
    states = [M.state_of(m) for m in steps]
    for p, m, name, v in M.iter_state(root):
        g = cfg.group_of(p, v)
        vals = [M.leaf_value(s[p]) for s in states]
        if isinstance(g, int):
            axis = cfg.groups[g].axis
            check_axis([vals[0]], axis)
            meta = dict(v.meta) if isinstance(v, RVar) else {}
            if meta.get("sharding") is not None:
                names = list(meta["sharding"])
                while len(names) < axis:
                    names.append(None)
                names.insert(axis, "layers")
                meta = {"sharding": tuple(names)}
            new = P.stack(vals, axis)
            m.attrs[name] = RVar(v.kind, new, meta) if isinstance(v, RVar) else new
        elif depends_on_split(spec, p, cfg):
            raise Refused("unscanned variable differs per step")
    return root


def depends_on_split(spec, path, cfg):
    for part in path.split("/"):
        for n, w in spec:
            if n == part:
                if isinstance(w, list):
                    spec = w
                    break
                if isinstance(w, tuple):
                    return w[2] in ("params", "dropout") and cfg.wants_split(w[2])
                return False
    return False


# ------------------------------------------------------------------ runs
def run(r):
    try:
        _run(r)
    except P.TooBig:
        r.probe("values left the exact range, run cut short")


ARMS = ["none", "user", "user", "shape", "seam", "exec", "bad carry", "bad length"]


def _run(r):
    length = r.pick([3, 2, 1, 4])
    cfg = Config(r, length)
    holder = P.Holder()
    holder.bad_carry = False
    holder.meta = {}
    seam = P.Seam(r)
    has_ctx = r.chance(450)
    seed = r.draw(1000)
    ctx = rctx = None
    if has_ctx:
        ctx, rctx = (nnx.context(seed, dropout=seed + 1) for _ in range(2))
    form = r.pick(["fn", "fn", "Scan", "decorated"])
    with seam:
        if form == "fn":
            kinds = ("Param", "Param", "BatchStat", "Cache", "Tag", None)
            real, ref = P.gen_graph(r, max_modules=r.pick([2, 4]), kinds=kinds)
            prepare(r, real, ref, cfg)
            if cfg.sow and r.chance(500):
                put_logs(r, real, ref, cfg)
            r.ev("config", repr(cfg), "length", length)
            holder_real = real
        else:
            if form == "decorated":
                # a decorated __init__ refuses variables whose sharding metadata changes
                cfg.meta = False
            spec = gen_spec(r, cfg, has_ctx)
            r.ev("config", form, repr(cfg), "length", length, repr(spec))
        scratch = None
        if form != "fn":
            scratch = RMod(Layer)
            build_ref(scratch, spec, nnx.context(0, dropout=1))
        body = gen_body(r, cfg, ref if form == "fn" else scratch, has_ctx)
        f = P.make_real(body, holder)
        scanned = adapt_real(f, cfg, holder)
        kw = cfg.options(r, len(body.ret))
        r.ev("body", repr(body), "out_axes", repr(kw["out_axes"]))
        if form == "fn":
            outer = r.pick(["plain", "plain", "jit", "grad"])
            fn = nnx.scan(scanned, **kw)
        else:
            outer = "plain"
            made = construct(r, form, cfg, kw, spec, scanned, ctx, rctx)
            if made is None:
                return
            real, ref, holder_real, fn = made
        wrt = P.gen_wrt(r) if outer == "grad" else None
        top = wrap_outer(outer, fn, wrt)
        for c in range(1 + r.draw(4)):
            if not one_call(r, c, cfg, body, top, outer, wrt, real, ref, holder, seam, ctx, rctx) and ctx is not None:
                # a failed call may or may not have forked the context: C06 looks into that
                ctx, rctx = (nnx.context(seed + c + 2, dropout=seed) for _ in range(2))
    r.nontrivial = True


def gen_body(r, cfg, ref, has_ctx):
    allow = ["set", "new", "point"]
    if r.chance(300):
        allow.append("nested")
    if cfg.sow:
        allow += ["sow", "pop"]
    if r.chance(250):
        allow.append("exec")
    if has_ctx:
        allow.append("rng")
    shape = widest(cfg) or ((2,) if r.chance(300) else ())
    return P.gen_body(r, M.copy_graph(ref), allow=tuple(allow), nested_kinds=("jit", "remat", "grad"), grads=1, fit=shape)


def construct(r, form, cfg, kw, spec, scanned, ctx, rctx):
    SPEC[:] = [spec, scanned]
    if form == "Scan":
        cls = Layer

        def make():
            obj = nnx.Scan(Layer, **kw)(**({} if ctx is None else {"ctx": ctx}))
            return obj, obj.scan_module
    else:
        deco = {k: v for k, v in kw.items()}

        class Deco(nnx.Module):
            @lambda f: nnx.scan(f, **deco)
            def __init__(self, *, ctx=None):
                build_real(self, spec, ctx)

            @lambda f: nnx.scan(f, **deco)
            def __call__(self, c, x, *extra, ctx=None, kw=None):
                return scanned(self, c, x, *extra, ctx=ctx, kw=kw)

        cls = Deco

        def make():
            obj = Deco(**({} if ctx is None else {"ctx": ctx}))
            return obj, obj

    ok, out = r.attempt(make)
    try:
        ref = ref_construct(cfg, spec, rctx, cls)
    except Refused as e:
        r.ev("construction refused:", str(e))
        r.check(not ok, "invalid construction accepted", lambda: f"{e}: {M.desc(out)}")
        return None
    if not ok and not cfg.pass_length and not cfg.groups and rctx is not None:
        # a vmapped construction over nothing has no size: may be refused
        r.ev("construction without a length refused")
        return None
    if not ok:
        raise Violation(f"construction failed:{type(out).__name__}", f"{form}: {out}") from out
    obj, mod = out
    d = M.graph_diff(mod, ref)
    r.check(d is None, "constructed module", lambda: f"{form}: {d}")
    r.ev("constructed", form)
    if form == "Scan" and r.chance(500):
        fn = lambda m, c, x, *extra, **k: obj.call.body(c, x, *extra, **k)  # noqa: E731
    else:
        fn = lambda m, c, x, *extra, **k: obj(c, x, *extra, **k)  # noqa: E731
    return mod, ref, mod, fn


def wrap_outer(outer, fn, wrt):
    if outer == "jit":
        return nnx.jit(fn)
    if outer == "grad":
        def loss(m, c, x, *extra):
            c, y = fn(m, c, x, *extra)
            return jax.tree_util.tree_reduce(lambda a, b: a + jnp.sum(b), (c, y), jnp.float32(0)), (c, y)

        return nnx.grad(loss, wrt=wrt.real, has_aux=True)
    return fn


def one_call(r, n, cfg, body, top, outer, wrt, real, ref, holder, seam, ctx, rctx):
    arm = r.pick(ARMS) if r.chance(600) else "none"
    length = cfg.length
    if arm == "bad length":
        length = cfg.length + 1
        if cfg.xs == "none" or not (cfg.pass_length or any(isinstance(cfg.group_of(p, v), int)
                                                           for p, _, _, v in M.iter_state(ref) if grouped(cfg, p, v))):
            arm, length = "none", cfg.length
    xs = gen_xs(r, cfg, length)
    shape = r.pick([(), (2,)])
    carry = {"a": values(r, ()), "b": values(r, shape)} if cfg.carry_tree == "dict" else {"a": values(r, shape)}
    armed = P.Armed(r, None, "exception")
    if arm == "user":
        armed = P.Armed(r, 1 + r.draw(5), r.pick(["exception", "interrupt"]))
    elif arm == "shape":
        armed = P.Armed(r, 1 + r.draw(5), r.pick(["shape error", "concretization error"]))
    elif arm == "exec":
        armed = P.Armed(r, 1 + r.draw(3), "exec")
    elif arm == "seam":
        seam.arm(r.pick(["scan", "scan", "eval_shape"]), r.pick(["before", "after"]), 1 + r.draw(3))
    holder.armed = armed
    holder.bad_carry = arm == "bad carry"
    holder.bad_fired = False
    holder.meta = {}
    use_ctx = ctx is not None and outer != "grad" and r.chance(850)
    rc = {k: jnp.asarray(v) for k, v in carry.items()}
    if cfg.carry_tree == "scalar":
        rc = rc["a"]
    args = [rc, as_xs(cfg, xs, jnp.asarray)]
    args += [jnp.float32(v) for v in cfg.extra[:1]]
    kws = {"kw": jnp.float32(1.0)} if "kw" in cfg.extra and outer == "plain" else {}
    if use_ctx:
        kws["ctx"] = ctx
    ok, out = r.attempt(top, real, *args, **kws)
    holder.armed = None
    holder.bad_carry = False
    if arm == "bad carry" and not holder.bad_fired:
        arm = "none"  # a cached trace
    fired = seam.disarm() or armed.fired
    r.step(length)
    ctxs = None
    if use_ctx:
        rc = P.fork(rctx) if outer == "jit" else rctx
        ctxs = step_contexts(cfg, rc)
    if fired or arm in ("bad carry", "bad length"):
        if not fired:
            r.fault(arm)
        r.check(not ok, "failed call returned", lambda: f"{outer} ({arm}) returned {M.desc(out)}")
        r.ev("call", n, outer, "failed:", type(out).__name__)
        r.ran("failure")
        d = M.graph_diff(real, ref)
        r.check(d is None, "failed call changed the module", lambda: f"{outer} ({arm}): {d}")
        return False
    kwv = 1.0 if "kw" in kws else None
    try:
        grads = None
        if outer == "grad":
            def loss(m):
                c, ys = ref_scan(cfg, body, m, carry, xs, kwv, ctxs)
                t = np.float32(0)
                for v in [*c.values(), *ys]:
                    t = P.add(t, P.total(v))
                return t, (c, ys)

            grads, _, (c, ys), copy = P.ref_grad(loss, ref, wrt)
            commit(ref, copy)
        elif outer == "jit":
            copy = M.copy_graph(ref)
            c, ys = ref_scan(cfg, body, copy, carry, xs, kwv, ctxs)
            commit(ref, copy)
        else:
            c, ys = ref_scan(cfg, body, ref, carry, xs, kwv, ctxs)
    except Refused as e:
        r.ev("call", n, outer, "refused:", str(e))
        r.fault(f"refused: {e}")
        r.check(not ok, "invalid call accepted", lambda: f"{e}: {M.desc(out)}")
        d = M.graph_diff(real, ref)
        r.check(d is None, "failed call changed the module", lambda: f"{outer} ({e}): {d}")
        return False
    if not ok:
        raise Violation(f"call failed:{type(out).__name__}", f"{outer}: {out}") from out
    r.ran("call")
    r.ev("call", n, outer, "ok")
    if outer == "grad":
        from dst.props.c03 import fix

        d = M.state_diff(out[0], fix(grads))
        r.check(d is None, "gradient", lambda: d)
        out = out[1]
    rc, rys = out
    rc = rc if isinstance(rc, dict) else {"a": rc}
    for k in c:
        d = M.value_diff(rc[k], np.asarray(P.primal(c[k])))
        r.check(d is None, "carry", lambda: f"{outer} {k}: {d}")
    d = P.out_diff(rys, ys)
    r.check(d is None, "outputs", lambda: f"{outer}: {d}")
    d = M.graph_diff(real, ref)
    r.check(d is None, "module after call", lambda: f"{outer}: {d}")
    if cfg.meta:
        for p, s in holder.meta.items():
            r.check("layers" not in s, "axis name inside the body", lambda: f"{p}: {s}")
    r.state(outer, cfg.reverse, cfg.unroll, len(cfg.groups), cfg.xs, length)
    return True


def grouped(cfg, p, v):
    try:
        cfg.group_of(p, v)
        return True
    except Refused:
        return False


def commit(root, copy):
    kept = {p for p, *_ in M.iter_state(copy)}
    for p, m, n, _ in M.iter_state(root):
        if p not in kept:
            del m.attrs[n]
    for p, _, _, v in M.iter_state(copy):
        *mp, n = p.split("/")
        M.resolve(root, mp).attrs[n] = v
