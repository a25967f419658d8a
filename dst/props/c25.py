"""C25: replicas of a net with BatchNorm and Dropout layers, and everything that happens to them.

Each simulated thread owns some replicas of one net. They are called in training and in
inference (the mode comes from the call, the layer or the context, in that order), eagerly
and through nnx.jit/grad/remat/scan, on clones, and data-parallel under an axis name; calls
fail between the layers, on wrong shapes, or because no mode is given. Replicas send each
other snapshots of their statistics over a network that delays, loses, duplicates and
reorders them, crash and restart from saved ones. The reference folds the batches of the
calls that count into the statistics in float64, and draws dropout keys from a twin context.
"""
import jax
import jax.numpy as jnp
import numpy as np

from dst import prog as P, sched
from dst.core import Injected, Violation
from dst.model import nnx

S, F = 2, 3
MODES = [None, None, True, False]


class Lost(Exception):
    """float32 is no longer accurate enough to compare: the run is cut short."""


class Stop(Exception):
    """The reference says that the call fails here."""


class Layer:
    """What a layer was made with."""

    def __init__(self, r, axis_name):
        self.bn = r.chance(600)
        if self.bn:
            self.axis = r.pick([-1, -1, 1, 2, -2])
            self.n = F if self.axis in (-1, 2) else S
            self.momentum = r.pick([0.5, 0.9, 0.99, 0.0])
            self.eps = r.pick([1e-2, 0.25])
            self.mode = r.pick(MODES)
            self.axis_name = axis_name
            self.scale = r.pick([None, 0.5, 1.0])
            self.bias = r.pick([None, 1.0, -2.0])
        else:
            self.rate = r.pick([0.5, 0.25, 0.75, 0.0, 1.0])
            self.dims = r.pick([(), (), (0,), (1,), (-1,), (0, 2)])
            self.mode = r.pick(MODES)
            self.stream = r.pick(["dropout", "dropout", "noise"])

    def make(self, ctx):
        if not self.bn:
            return nnx.Dropout(self.rate, broadcast_dims=self.dims, deterministic=self.mode, rng_collection=self.stream)
        m = nnx.BatchNorm(self.n, use_running_average=self.mode, axis=self.axis, momentum=self.momentum,
                          epsilon=self.eps, use_scale=self.scale is not None, use_bias=self.bias is not None,
                          axis_name=self.axis_name, ctx=ctx)
        if self.scale is not None:
            m.scale = jnp.full((self.n,), self.scale) * (1 + jnp.arange(self.n))
        if self.bias is not None:
            m.bias = jnp.full((self.n,), self.bias) + jnp.arange(self.n)
        return m

    def __repr__(self):
        return f"{'bn' if self.bn else 'drop'}{ {k: v for k, v in vars(self).items() if k != 'bn'} }"


class Net(nnx.Module):
    def __init__(self, layers, order, ctx):
        self.order = order
        for i, la in enumerate(layers):
            setattr(self, f"l{i}", la.make(ctx))

    def __call__(self, x, running=None, det=None, ctx=None, fail=None):
        for n, i in enumerate(self.order):
            if fail == n:
                raise Injected("between the layers")
            layer = getattr(self, f"l{i}")
            x = layer(x, running, ctx=ctx) if isinstance(layer, nnx.BatchNorm) else layer(x, deterministic=det, ctx=ctx)
        if fail == len(self.order):
            raise Injected("after the layers")
        return x


# ------------------------------------------------------------------ the reference
def initial(layers):
    return [[np.zeros(la.n), np.ones(la.n)] if la.bn else None for la in layers]


def copied(stats):
    return [None if s is None else [s[0].copy(), s[1].copy()] for s in stats]


def first(*vals):
    for v in vals:
        if v is not None:
            return v
    raise Stop("no mode")


def ref_call(layers, order, stats, x, running, det, ctx, flags, fail=None, sharded=False):
    """Updates stats; returns the output. With sharded, x has a leading axis of shards."""
    x = np.asarray(x, np.float64)
    for n, i in enumerate(order):
        if fail == n:
            raise Stop("fault")
        la = layers[i]
        if la.bn:
            ura = first(running, la.mode, flags.get("use_running_average"))
            axis = la.axis % 3 + sharded
            others = tuple(a for a in range(x.ndim) if a != axis)
            if x.shape[axis] != la.n:
                raise Stop("shape")
            if ura:
                mean, var = stats[i]
            else:
                if la.axis_name is not None and not sharded:
                    raise Stop("axis name")
                mean, var = x.mean(others), x.var(others)
                m = la.momentum
                stats[i] = [m * stats[i][0] + (1 - m) * mean, m * stats[i][1] + (1 - m) * var]
            big = np.abs(x).max(initial=1.0)
            if 3e-7 * big * big > 1e-4 * (var.min() + la.eps):
                raise Lost
            shp = [1] * x.ndim
            shp[axis] = la.n
            y = (x - mean.reshape(shp)) / np.sqrt(var + la.eps).reshape(shp)
            if la.scale is not None:
                y = y * (la.scale * (1 + np.arange(la.n))).reshape(shp)
            if la.bias is not None:
                y = y + (la.bias + np.arange(la.n)).reshape(shp)
            x = y
        else:
            d = first(det, la.mode, flags.get("deterministic"))
            if d or la.rate == 0.0:
                continue
            if la.rate == 1.0:
                x = np.zeros_like(x)
                continue
            if ctx is None:
                raise Stop("no context")
            shp = [1 if a in [b % 3 for b in la.dims] else s for a, s in enumerate(x.shape)]
            keep = np.asarray(jax.random.bernoulli(ctx.make_rng(la.stream), 1 - la.rate, shp))
            x = np.where(keep, x / (1 - la.rate), 0.0)
    if fail == len(order):
        raise Stop("fault")
    return x


def close(got, want):
    got = np.asarray(got, np.float64)
    return got.shape == want.shape and bool(np.all(np.abs(got - want) <= 5e-4 * (1 + np.abs(want))))


# ------------------------------------------------------------------ one thread's replicas
class World:
    def __init__(self, r, label):
        self.r, self.label = r, label
        self.axis_name = r.pick([None, None, None, "shards"])
        self.layers = [Layer(r, self.axis_name) for _ in range(1 + r.draw(3))]
        self.order = tuple(r.draw(len(self.layers)) for _ in range(1 + r.draw(4)))
        self.seed = r.draw(100)
        self.nets, self.stats = [], []
        for i in range(1 + r.draw(3)):
            self.nets.append(self.fresh())
            self.stats.append(initial(self.layers))
        self.mail = []
        self.saved = [(n.filter(nnx.BatchStat), copied(s)) for n, s in zip(self.nets, self.stats)]
        self.renew()
        self.fns = {}
        r.ev("net", label, repr(self.layers), repr(self.order), len(self.nets))

    def fresh(self):
        self.seed += 1
        return Net(self.layers, self.order, nnx.context(params=self.seed))

    def renew(self):
        """A new stream of keys, and its twin."""
        self.seed += 1
        self.flags = {}
        for k in ("use_running_average", "deterministic"):
            v = self.r.pick([None, True, False, False])
            if v is not None:
                self.flags[k] = v
        self.ctx, self.twin = (nnx.context(params=0, dropout=self.seed, noise=self.seed + 1, flags=given)
                               for given in [dict(self.flags)] for _ in range(2))
        if self.r.chance(200):
            # the dict belongs to the caller, who goes on with it for another context
            given = dict(self.flags)
            self.ctx = nnx.context(params=0, dropout=self.seed, noise=self.seed + 1, flags=given)
            for k in ("use_running_average", "deterministic"):
                given[k] = not given.get(k, False)
            nnx.context(0, flags=given)
            self.r.probe("flags of the caller edited")

    def gen_x(self, shape):
        n = int(np.prod(shape))
        style = self.r.draw(4)
        base = self.r.draw(4)
        vals = [base + (self.r.draw(9) - 4) * (style != 0) for _ in range(n)]
        return np.asarray(vals, np.float32).reshape(shape)

    def check(self, i, what):
        net, stats = self.nets[i], self.stats[i]
        n = 0
        for j, la in enumerate(self.layers):
            layer = getattr(net, f"l{j}")
            if not la.bn:
                continue
            for name, want in zip(("mean", "var"), stats[j]):
                got = getattr(layer, name)
                if not close(got, want):
                    raise Violation(f"running {name} after {what}", f"{self.label} replica {i} layer {j}: {np.asarray(got)} instead of {want}")
                if np.asarray(got).dtype != np.float32:
                    raise Violation("statistics lose precision", f"{np.asarray(got).dtype} after {what}")
                n += 1
            for name, v in (("scale", la.scale), ("bias", la.bias)):
                got = getattr(layer, name)
                want = None if v is None else v * (1 + np.arange(la.n)) if name == "scale" else v + np.arange(la.n)
                if (got is None) != (v is None) or (v is not None and not np.array_equal(np.asarray(got), want)):
                    raise Violation(f"{name} changed", f"after {what}: {got} instead of {want}")
        return n

    def frozen(self, i):
        return {p: None if v is None else np.asarray(v).tobytes() for p, v in
                ((p, getattr(v, "value", v)) for p, v in self.nets[i].get_state().items())}

    def streams(self, what):
        """Both contexts hand out the same keys from here on."""
        for s in ("dropout", "noise"):
            a, b = self.ctx.make_rng(s), self.twin.make_rng(s)
            if not np.array_equal(np.asarray(a), np.asarray(b)):
                raise Violation("number of keys drawn", f"{what}: stream {s}")


FORMS = ["eager", "eager", "eager", "jit", "grad", "remat", "apply", "pure apply", "pure call", "scan"]


def call(w, n):
    r = w.r
    i = r.draw(len(w.nets))
    net, stats = w.nets[i], w.stats[i]
    form = r.pick(FORMS)
    if w.axis_name and r.chance(800):
        form = "shards"
    running, det = r.pick([None, False, None, False, True]), r.pick([None, False, False, True])
    fail = None
    arm = r.pick(["none", "none", "none", "user", "shape"])
    if arm == "user":
        fail = r.draw(len(w.order) + 1)
    b = 2 + r.draw(2)
    shape = (b, S + (arm == "shape" and r.draw(2)), F + (arm == "shape"))
    with_ctx = r.chance(700)
    flags = w.flags if with_ctx else {}
    kw = {"ctx": w.ctx} if with_ctx else {}
    twin = w.twin if with_ctx else None
    if form in ("shards", "scan"):
        # no keys under vmap and in scans: C04 and C06 look at those
        with_ctx, kw, twin, flags = False, {}, None, {}
        if any(not la.bn for la in w.layers):
            det = True
    count = 1 + r.draw(3)
    x = w.gen_x((count, *shape) if form in ("shards", "scan") else shape)
    before = w.frozen(i)
    mine = copied(stats)
    inner = twin
    if twin is not None and form in ("jit", "remat"):
        inner = P.fork(twin)
    quiet = w.axis_name is None  # the state is exact when nothing was averaged
    jx = jnp.asarray(x)

    def body(m, x, ctx=None):
        return m(x, running, det, ctx=ctx, fail=fail)

    def go():
        if form == "eager":
            return net(jx, running, det, fail=fail, **kw), None
        if form == "apply":
            out, new = net.apply(jx, running, det, fail=fail, **kw)
            return out, new
        if form == "pure apply":
            out, pure = net.partition().apply(jx, running, det, fail=fail, **kw)
            return out, pure.merge()
        if form == "pure call":
            return net.partition().call(jx, running, det, fail=fail, **kw), None
        if form == "jit":
            return nnx.jit(body)(net, jx, **kw), None
        if form == "remat":
            return nnx.remat(body)(net, jx, **kw), None
        if form == "grad":
            def loss(m, x):
                y = m(x, running, det, fail=fail)
                return jnp.sum(y), y
            return nnx.grad(loss, wrt=nnx.Param, has_aux=True)(net, jx)[1], None
        if form == "scan":
            def step(m, c, x):
                return c, m(x, running, det, fail=fail)
            f = nnx.scan(step, variable_carry=..., length=count)
            return f(net, jnp.float32(0), jx)[1], None
        pure = net.partition()

        def shard(x):
            out, new = pure.apply(x, running, det, fail=fail)
            return out, new.get_state()

        out, states = jax.vmap(shard, axis_name="shards")(jx)
        for p, v in states.items():
            v = getattr(v, "value", v)
            if v is not None and not np.all(np.asarray(v) == np.asarray(v)[:1]):
                raise Violation("shards disagree", f"{p}: {np.asarray(v)}")
        net.update_state(jax.tree_map(lambda a: a[0], states))
        return out, None

    if form == "grad":
        kw, twin, inner, flags = {}, None, None, {}
    what = f"{form}{' in training' if running is False else ''}"
    ok, out = r.attempt(go)
    try:
        if form == "scan":
            want = np.stack([ref_call(w.layers, w.order, mine, x[t], running, det, None, {}, fail) for t in range(count)])
        else:
            want = ref_call(w.layers, w.order, mine, x, running, det, inner, flags, fail, form == "shards")
        failed = None
    except Stop as e:
        failed = str(e)
    r.ev("call", w.label, n, i, form, repr(running), repr(det), arm, "failed" if failed else "ok")
    r.probe(form)
    if failed:
        r.fault(f"{failed} ({form})")
        if ok:
            raise Violation("failing call returned", f"{what}: {failed}")
        if form == "eager":
            w.stats[i] = mine  # what the layers before the failing one did stays
        elif w.frozen(i) != before:
            raise Violation("failed call changed the net", f"{what}: {failed}")
        w.check(i, f"failed {what}")
        if twin is not None:
            if form in ("eager", "apply", "pure apply", "pure call"):
                w.streams(f"failed {what}")
            w.renew()
        return
    if not ok:
        raise Violation(f"call failed:{type(out).__name__}", f"{what}: {out}") from out
    y, new = out
    if not close(y, want):
        raise Violation("output", f"{what}, layers {w.layers} order {w.order}: {np.asarray(y).tolist()} instead of {want.tolist()}")
    if form in ("apply", "pure apply", "pure call"):
        if w.frozen(i) != before:
            raise Violation("apply changed the net", what)
        w.check(i, what)
        if new is not None and r.draw(2):
            w.nets[i], w.stats[i] = new, mine
            w.check(i, f"{what}, its result")
    else:
        w.stats[i] = mine
        w.check(i, what)
        if all(a is None or np.array_equal(a[k], b[k]) for a, b in zip(stats, mine) for k in (0, 1)) and quiet:
            r.probe("inference")
            if not any(la.bn and la.momentum for la in w.layers) or _all_inference(w, running, flags):
                if w.frozen(i) != before:
                    raise Violation("inference changed the net", what)
    if twin is not None and r.chance(400):
        w.streams(what)


def _all_inference(w, running, flags):
    return all(first(running, w.layers[j].mode, flags.get("use_running_average")) for j in set(w.order) if w.layers[j].bn)


def exchange(w, n):
    """Statistics travel between replicas, get lost, and come late or twice."""
    r = w.r
    i = r.draw(len(w.nets))
    c = r.draw(6)
    if c == 0 or not w.mail:
        w.mail.append((w.nets[i].filter(nnx.BatchStat), copied(w.stats[i])))
        r.ev("send", w.label, i)
    elif c == 1:
        w.mail.pop(r.draw(len(w.mail)))
        r.fault("message lost")
    elif c in (2, 3):
        k = r.draw(len(w.mail))
        state, stats = w.mail[k]
        if r.draw(2):
            w.mail.pop(k)
        else:
            r.fault("message duplicated")
        w.nets[i].update_state(state)
        w.stats[i] = copied(stats)
        r.ev("receive", w.label, i, k)
        w.check(i, "received statistics")
    elif c == 4:
        w.saved[i] = (w.nets[i].filter(nnx.BatchStat), copied(w.stats[i]))
        r.ev("save", w.label, i)
    else:
        r.fault("replica crash")
        state, stats = w.saved[i]
        w.nets[i], w.stats[i] = w.fresh(), copied(stats)
        w.nets[i].update_state(state)
        w.check(i, "restart")


def work(r, i, n):
    def go():
        w = World(r, f"t{i}")
        try:
            for k in range(n):
                if w.r.chance(300):
                    exchange(w, k)
                else:
                    call(w, k)
                if w.r.chance(60):
                    w.renew()
                w.r.step()
                sched.point("between operations")
            for j in range(len(w.nets)):
                w.check(j, "everything")
        except Lost:
            w.r.probe("values left the comparable range, replica stopped")

    return go


def run(r):
    n = r.pick([1, 1, 1, 2, 3])
    todo = []
    for i in range(n):
        rr = r.sub(f"w{i}")
        todo.append(work(rr, i, 3 + rr.draw(8)))
    if n == 1:
        todo[0]()
    else:
        sched.threads(r, [(f"t{i}", f) for i, f in enumerate(todo)], preempt_tracing=False)
    r.nontrivial = True
