"""C03: nnx.jit, nnx.grad and nnx.remat against direct execution, with failing calls.

A run builds a random module graph and a few transformed random programs over it,
then makes a history of calls. Faults strike calls in the user function, in
tracing, at the jax entry points (as failing compilation or execution) and inside
the executing computation.
"""
import jax
import jax.numpy as jnp
import numpy as np

from dst import model as M, prog as P
from dst.core import Injected, InjectedInterrupt, Violation
from dst.model import nnx


def times(x, n):
    """n is a static argument: a plain int."""
    if type(n) is not int:
        raise Violation("static argument was traced", repr(type(n)))
    return x * n


class Callable_(P.Cell):
    def __call__(self, x, *n, ctx=None):
        fn = CURRENT[0]
        if n:
            x = times(x, *n)
        return fn(self, x) if ctx is None else fn(self, x, ctx=ctx)

    def named(self, x, *n, ctx=None):
        return self(x, *n, ctx=ctx)


CURRENT = [None]


class Fn:
    """One transformed program."""

    def __init__(self, run, ref, holder, uses_ctx):
        self.kind = run.pick(["jit", "grad", "remat", "Remat", "jit(grad)", "jit"])
        self.stateful = not run.chance(150) or self.kind in ("remat", "Remat")
        self.aux = not run.chance(400)
        self.grad = self.kind in ("grad", "jit(grad)")
        self.static = None
        if self.kind == "jit":
            self.static = run.pick([None, "num", "name"])
        elif self.kind in ("remat", "Remat"):
            self.static = run.pick([None, 1, (1,), -1, (-1,)])
        self.takes_ctx = uses_ctx and self.kind in ("jit", "remat", "Remat")
        allow = ["set", "new", "sow", "pop", "nested", "point"]
        if run.chance(300):
            allow.append("exec")
        if self.takes_ctx:
            allow.append("rng")
        if run.chance(120):
            allow.append("grow")
        scratch = M.copy_graph(ref)
        self.body = P.gen_body(run, scratch, allow=tuple(allow), grads=int(self.grad))
        # submodules that a transformed function builds may be refused
        self.grows = has(self.body, "grow") if self.stateful else nested_has(self.body, "grow")
        self.wrt = P.gen_wrt(run) if self.grad else None
        f = P.make_real(self.body, holder)
        self.plain = f
        if self.kind == "jit":
            if self.static == "num":
                self.real = nnx.jit(lambda m, x, n, *, ctx=None: f(m, times(x, n), ctx=ctx), stateful=self.stateful,
                                    static_argnums=run.pick([2, (2,)]))
            elif self.static == "name":
                self.real = nnx.jit(lambda m, x, *, times_n, ctx=None: f(m, times(x, times_n), ctx=ctx),
                                    stateful=self.stateful, static_argnames=run.pick(["times_n", ["times_n"], ("times_n",)]))
            else:
                self.real = nnx.jit(f, stateful=self.stateful)
        elif self.kind == "grad":
            self.real = nnx.grad(P._loss(f, self.aux), wrt=self.wrt.real, has_aux=self.aux, stateful=self.stateful)
        elif self.kind == "remat":
            self.real = self.remat(not run.chance(300))
        elif self.kind == "Remat":
            self.real = None
            self.accessor = run.draw(2)
        else:
            self.real = nnx.jit(nnx.grad(P._loss(f, self.aux), wrt=self.wrt.real, has_aux=self.aux,
                                         stateful=self.stateful))

    def remat(self, prevent_cse=True):
        f = self.plain
        if self.static is None:
            return nnx.remat(f, prevent_cse=prevent_cse)
        return nnx.remat(lambda m, x, n, *, ctx=None: f(m, times(x, n), ctx=ctx), prevent_cse=prevent_cse,
                         static_argnums=self.static)

    def call(self, m, x, n, ctx):
        kw = {} if ctx is None else {"ctx": ctx}
        if self.kind == "Remat":
            CURRENT[0] = self.plain
            if self.static is None:
                args, r = (x,), nnx.Remat(lambda: m)()
            else:
                args, r = (x, n), nnx.Remat(lambda: m, static_argnums=self.static)()
            return r(*args, **kw) if self.accessor == 0 else r.call.named(*args, **kw)
        if self.static is not None and self.static != "name":
            return self.real(m, x, n, **kw)
        if self.static == "name":
            return self.real(m, x, times_n=n, **kw)
        return self.real(m, x, **kw)

    def ref(self, m, x, n, ctx):
        x = np.float32(x)
        if self.grad:
            outer = M.copy_graph(m) if self.kind == "jit(grad)" else m
            g, aux = P.ref_grad_call(self.body, outer, x, self.wrt, stateful=self.stateful)
            if outer is not m and self.stateful:
                P.write_back(m, outer)
            return (g, aux) if self.aux else g
        if self.static is not None:
            x = np.float32(x * n)
        return P.ref_call(self.body, m, x, stateful=self.stateful, ctx=ctx)

    def diff(self, real, ref):
        if not self.grad:
            return P.out_diff(real, ref)
        if self.aux:
            if not isinstance(real, tuple) or len(real) != 2:
                return f"{M.desc(real)} instead of (grads, aux)"
            return M.state_diff(real[0], fix(ref[0])) or P.out_diff(real[1], ref[1])
        return M.state_diff(real, fix(ref))


def fix(grads):
    out = {}
    for p, v in sorted(grads.items()):
        if isinstance(v, M.RVar):
            out[p] = M.RVar(v.kind, np.asarray(P.primal(v.value)), v.meta)
        else:
            out[p] = np.asarray(P.primal(v))
    return out


def has(body, k):
    return any(i[0] == k or (i[0] == "nested" and has(i[3], k)) for i in body.instrs)


def nested_has(body, k):
    return any(i[0] == "nested" and has(i[3], k) for i in body.instrs)


ARMS = ["none", "user", "user", "shape", "seam", "exec"]


# ------------------------------------------------------------------ options and arguments
class Flat(nnx.Module):
    def __init__(self, leaves):
        for n, v in leaves.items():
            setattr(self, n, v)


MODES = {"add": lambda x, n: x + n, "mul": lambda x, n: x * n}


class Options:
    """Variables of real, complex and integer types, arguments of all forms, and all
    options of the transforms: a polynomial with known derivatives."""

    def __init__(self, r):
        self.r = r
        self.leaves = {}  # name -> [kind, value, coefficient]
        for i in range(1 + r.draw(4)):
            t = r.pick(["f", "f", "c", "i"])
            shape = r.pick([(), (2,), (1, 3)])
            self.leaves[f"v{i}"] = [r.pick(["Param", "Param", "BatchStat", "raw"]), self.fresh(t, shape), float(1 + r.draw(3))]
        self.count, self.seen = 0, 0.0
        self.boom = None

    def fresh(self, t, shape=()):
        n = int(np.prod(shape, dtype=int))
        a = np.asarray([self.r.draw(7) - 3 for _ in range(n)]).reshape(shape)
        if t == "c":
            return (a + 1j * (self.r.draw(5) - 2)).astype(np.complex64)
        return a.astype({"f": np.float32, "i": np.int32}[t])

    def build(self):
        m = Flat({})
        for n, (kind, v, _) in self.leaves.items():
            v = jnp.asarray(v)
            setattr(m, n, v if kind == "raw" else getattr(nnx, kind)(v))
        m.count = nnx.BatchStat(jnp.int32(0))
        m.seen = nnx.BatchStat(jnp.float32(0))
        return m

    # the function: s(args) * sum(c * v ** 2) over the leaves of the given types
    def scale(self, tree, more, mode, n, extra):
        s = tree["a"] + 2 * tree["b"][0]
        if more is not None:
            s = s + 3 * more["x"]
        if extra is not None:
            s = s - extra
        return MODES[mode](s, n)

    def total(self, get, types, one):
        out = one
        for name, (kind, v, c) in self.leaves.items():
            if v.dtype.kind in types:
                x = get(name)
                out = out + c * (x * x).sum()
        return out

    def function(self, types, aux):
        def f(m, tree, mode="mul", n=1, more=None, *, extra=None):
            if type(mode) is not str or type(n) is not int:
                raise Violation("static argument was traced", repr((type(mode), type(n))))
            self.hit(0)
            s = self.scale(tree, more, mode, n, extra)
            m.count = m.count + 1
            self.hit(1)
            m.seen = s
            one = jnp.asarray(1, np.complex64 if "c" in types else np.float32)
            out = s * self.total(lambda k: getattr(m, k), types, one)
            self.hit(2)
            return (out, {"s": s}) if aux else out
        return f

    def hit(self, point):
        if self.boom == point:
            self.boom = None
            self.r.fault(f"exception at point {point}")
            raise Injected("user function")

    def main(self):
        r = self.r
        m = self.build()
        for i in range(2 + r.draw(3)):
            self.step(i, m)

    def step(self, i, m):
        r = self.r
        kind = r.pick(["grad", "grad", "jit(grad)", "jit", "remat"])
        holo, ints = r.chance(400), r.chance(500)
        aux, stateful = r.chance(500), r.chance(800)
        fkind, fpred = r.pick([(nnx.Param, ("Param",)), (nnx.Variable, ("Param", "BatchStat")), (..., ("Param", "BatchStat", "raw")),
                               (None, ())])
        names = [n for n, (k, v, c) in self.leaves.items() if k in fpred and r.chance(800)]
        wrt = r.pick([0, 1])
        if wrt:  # by name
            fil = lambda path, v, names=tuple(names): path in names  # noqa: E731
        else:  # by kind: the counters are statistics
            fil = fkind
            names = [n for n, (k, v, c) in self.leaves.items() if k in fpred]
        types = r.pick(["f", "fi", "fic"]) if kind in ("jit", "remat") else ("fic" if holo else r.pick(["f", "fi"]))
        f = self.function(types, aux)
        sel = {self.leaves[n][1].dtype.kind for n in names}
        if not wrt and fkind is not nnx.Param and fkind is not None:
            sel |= {"i", "f"}  # count and seen
        tree = {"a": np.float32(1 + r.draw(3)), "b": (np.float32(r.draw(3)), None)}
        mode, n = "mul", 1
        more, extra = None, None
        kw = {}
        if kind in ("grad", "jit(grad)"):
            g = nnx.grad(f, wrt=fil, holomorphic=holo, allow_int=ints, has_aux=aux, stateful=stateful)
            args = (tree,)
            if kind == "jit(grad)":
                g = nnx.jit(g)
            bad = (sel - {"c"}) if holo else (set() if ints else sel & {"i"})
        else:
            bad = set()
            mode, n = r.pick(["mul", "add"]), r.pick([1, 2, -1])
            more = r.pick([None, {"x": np.float32(2)}])
            extra = np.float32(1) if kind == "jit" and r.chance(500) else None
            form = r.draw(3)
            if kind == "remat":
                stateful = True
                g = nnx.remat(f, static_argnums=r.pick([(1, 2), (2, 1), (-3, 2), (1, -2), (-2, -3)]),
                              prevent_cse=r.chance(500), policy=r.pick([None, jax.checkpoint_policies.everything_saveable]))
                args = (tree, mode, n, more)
            elif form == 0:
                g = nnx.jit(f, stateful=stateful, static_argnums=r.pick([(2, 3), (-3, -2)]), keep_unused=r.chance(500))
                args = (tree, mode, n, more)
            else:
                g = nnx.jit(f, stateful=stateful, static_argnames=r.pick([("mode", "n"), ["n", "mode"]]), inline=r.chance(500))
                args = (tree,)
                kw.update(mode=mode, n=n)
                if more is not None:
                    kw["more"] = more
            if extra is not None:
                kw["extra"] = extra
        if r.chance(250):
            self.boom = r.draw(3)
        armed = self.boom is not None
        before = {k: np.asarray(getattr(m, k)) for k in (*self.leaves, "count", "seen")}
        ok, out = r.attempt(g, m, *args, **kw)
        fired = armed and self.boom is None
        self.boom = None
        what = f"{kind} of {sorted(names)} holomorphic={holo} allow_int={ints} types={types} aux={aux} stateful={stateful} {args[1:]} {sorted(kw)}"
        r.ev(i, what, "ok" if ok else type(out).__name__)
        r.step()
        r.ran("call" if ok else "failure")
        if isinstance(out, Violation):
            raise out
        if not ok:
            r.check(fired or bad, f"call failed:{type(out).__name__}", lambda: f"{what}: {out}")
            self.unchanged(m, before, what)
            return
        r.check(not fired, "failed call returned", what)
        r.check(not bad, "refused selection returned", lambda: f"{what}: {sorted(bad)}")
        s = self.scale(tree, more, mode, n, extra)
        get = lambda k: self.leaves[k][1]  # noqa: E731
        if kind in ("grad", "jit(grad)"):
            grads, got_aux = out if aux else (out, None)
            want = {k: (2 * self.leaves[k][2] * s * get(k)).astype(get(k).dtype) if get(k).dtype.kind in types else 0 * get(k)
                    for k in names}
            if not wrt and fkind is not nnx.Param and fkind is not None:
                want.update(count=np.int32(0), seen=np.float32(0))
            r.check(sorted(grads) == sorted(want), "paths of the gradients", lambda: f"{what}: {sorted(grads)}")
            for k, w in want.items():
                v = grads[k]
                kd = "BatchStat" if k in ("count", "seen") else self.leaves[k][0]
                if kd != "raw":
                    r.check(type(v) is getattr(nnx, kd), "kind of a gradient", lambda: f"{what}: {k} {type(v)}")
                    v = v.value
                if w.dtype.kind == "i":
                    r.check(np.asarray(v).dtype == jax.dtypes.float0 and np.shape(v) == np.shape(w), "gradient", lambda: f"{what}: {k} {v!r}")
                else:
                    same(r, v, w, "gradient", f"{what}: {k}")
            if aux:
                same(r, got_aux["s"], s, "aux", what)
        else:
            one = np.asarray(1, np.complex64 if "c" in types else np.float32)
            want = s * self.total(get, types, one)
            if aux:
                same(r, out[1]["s"], s, "aux", what)
                out = out[0]
            same(r, out, want, "result", what)
        if stateful:
            before["count"] = before["count"] + np.int32(1)
            before["seen"] = s
        self.unchanged(m, before, what)

    def unchanged(self, m, before, what):
        for k, v in before.items():
            same(self.r, getattr(m, k), v, "module after call", f"{what}: {k}")
        self.r.check(sorted(M.real_attrs(m)) == sorted(before), "module after call", lambda: f"{what}: {sorted(M.real_attrs(m))}")


def same(r, got, want, tag, what):
    got = np.asarray(got)
    want = np.asarray(want)
    r.check(got.shape == want.shape and got.dtype.kind == want.dtype.kind and np.array_equal(got, want), tag,
            lambda: f"{what}: {got!r} instead of {want!r}")


def run(r):
    if r.chance(120):
        Options(r).main()
        r.nontrivial = True
        return
    try:
        _run(r)
    except P.TooBig:
        r.probe("values left the exact range, run cut short")


def _run(r):
    real, ref = P.gen_graph(r, max_modules=r.pick([2, 4]), inert=True)
    if ref.cls is P.Cell and r.chance(600):
        # an instance of the class that nnx.Remat can call
        object.__setattr__(real, "__class__", Callable_)
        ref.cls = Callable_
    holder = P.Holder()
    seam = P.Seam(r)
    seed = r.draw(1000)
    uses_ctx = r.chance(400)
    ctx = rctx = None
    if uses_ctx:
        ctx, rctx = (nnx.context(seed, dropout=seed + 1) for _ in range(2))
    faulty = r.chance(750)
    with seam:
        fns = []
        for _ in range(1 + r.draw(2)):
            f = Fn(r, ref, holder, uses_ctx)
            if f.kind == "Remat" and ref.cls is not Callable_:
                f.kind = "remat"
                f.real = f.remat()
            fns.append(f)
            r.ev("fn", f.kind, "stateful" if f.stateful else "stateless", repr(f.static), repr(f.wrt), repr(f.body.instrs),
                 repr(f.body.ret))
        n_calls = 2 + r.draw(4)
        for c in range(n_calls):
            one_call(r, c, fns, real, ref, holder, seam, ctx, rctx, faulty)
            if r.chance(250):
                edit(r, real, ref)
    r.nontrivial = True


def edit(r, real, ref):
    """Whatever happened before, the module can be changed at this level."""
    path, m = P.walk_path(r, ref)
    t = P.resolve_real(real, path)
    v = M.refarr(float(1 + r.draw(7)))
    names = sorted(n for n, x in m.attrs.items() if P.usable(n, x))
    if names:
        n = r.pick(names)
        r.must("edit between calls", setattr, t, n, M.to_real(v))
        M.set_attr(m, n, v)
    elif "k" in m.attrs:
        k = r.pick([2, 3, 5])
        r.must("edit between calls", setattr, t, "k", k)
        m.attrs["k"] = k


def one_call(r, c, fns, real, ref, holder, seam, ctx, rctx, faulty):
    f = r.pick(fns)
    path, m = P.walk_path(r, ref, 1) if r.chance(0) else ((), ref)
    x = float(1 + r.draw(4))
    n = r.pick([1, 2, 3])
    arm = r.pick(ARMS) if faulty else "none"
    armed = P.Armed(r, None, "exception")
    if arm == "user":
        armed = P.Armed(r, 1 + r.draw(6), r.pick(["exception", "interrupt"]))
    elif arm == "shape":
        armed = P.Armed(r, 1 + r.draw(6), r.pick(["shape error", "concretization error"]))
    elif arm == "exec":
        armed = P.Armed(r, 1 + r.draw(3), "exec")
    elif arm == "seam":
        name = {"jit": "jit", "grad": "grad", "remat": "checkpoint", "Remat": "checkpoint", "jit(grad)": "jit"}[f.kind]
        seam.arm(name, r.pick(["before", "after"]), 1 + r.draw(2))
    holder.armed = armed
    args = (f.takes_ctx and ctx is not None and r.chance(800))
    ok, out = r.attempt(f.call, real, x, n, ctx if args else None)
    holder.armed = None
    fired = seam.disarm() or armed.fired
    fork = P.fork(rctx) if args else None
    r.step()
    r.ran("call" if ok else "failure")
    if fired:
        r.check(not ok, "failed call returned", lambda: f"{f.kind} returned {M.desc(out)} although its function failed")
        r.ev("call", c, f.kind, "failed:", type(out).__name__)
        d = M.graph_diff(real, ref)
        r.check(d is None, "failed call changed the module", lambda: f"{f.kind} ({arm}): {d}")
        return
    if not ok and f.grows:
        r.ev("call", c, f.kind, "with a new submodule refused")
        r.fault("submodule built by a transformed function")
        d = M.graph_diff(real, ref)
        r.check(d is None, "refused call changed the module", lambda: f"{f.kind}: {d}")
        return
    if not ok:
        raise Violation(f"call failed:{type(out).__name__}", f"{f.kind}: {out}") from out
    want = f.ref(ref, x, n, fork)
    r.ev("call", c, f.kind, "ok")
    d = f.diff(out, want)
    r.check(d is None, "result", lambda: f"{f.kind}: {d}")
    d = M.graph_diff(real, ref)
    r.check(d is None, "module after call", lambda: f"{f.kind} stateful={f.stateful}: {d}")
    r.state(f.kind, f.stateful, f.aux, f.static, len(M.modules(ref)))
