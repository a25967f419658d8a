"""C14: producers and collectors of sown values, over module graphs and transforms.

Producers record values with sow: directly, in methods that fail half-way, and in
functions run through nnx.jit/grad/remat/scan that may fail at any of their steps or
at the jax call under them. Collectors pop with changing filters, from any module of
the graph, from snapshots and clones, and inside the transformed functions. The tape
interleaves them; a plain object graph with ordered lists is the reference, and at the
end everything still recorded is drained. Foreign threads try to sow and pop too.
"""
import jax
import jax.numpy as jnp
import numpy as np

from dst import model as M, prog as P, sched
from dst.core import Injected, Violation
from dst.model import RMod, RVar, Refused, nnx

SOWN = ["Intermediate", "Cache", "Tag", "SubLog"]
ALPHABETS = [["log", "aux", "h"], ["log", "aux", "h"], ["_ulog", "aux", "H"], ["log", "_u", "log0"]]


class Body(nnx.Module):
    def __init__(self):
        pass

    def go(self, fn, x):
        return fn(self, x)

    def __call__(self, fn, x):
        return fn(self, x)


class Body2(Body):
    busy = "a class attribute"

    @property
    def ready(self):
        return True


class DictBody(nnx.Dict):
    def go(self, fn, x):
        return fn(self, x)

    def __call__(self, fn, x):
        return fn(self, x)


# ------------------------------------------------------------------ programs
class Prog:
    """A list of instructions run by a producer."""

    def __init__(self, instrs, name):
        self.instrs, self.name = instrs, name

    def labels(self):
        """Every place in the program where a fault can strike."""
        out = [f"{self.name} start"]
        for i, ins in enumerate(self.instrs):
            if ins[0] == "point":
                out.append(f"{self.name} point {i}")
            elif ins[0] == "call":
                out += ins[3].labels()
                if ins[1] != "plain":
                    out.append(f"{self.name} after {i}")
        return out

    def __repr__(self):
        return f"{self.name}{self.instrs}"


class Fault(P.Armed):
    """Strikes the first time its place is reached."""

    def hit(self, where):
        if where == self.at and not self.fired:
            self.fired = True
            self.run.fault(f"{self.action} in a producer")
            P.ACTIONS[self.action]()


class World:
    def __init__(self, run):
        self.run = r = run
        self.token = 0
        self.names = r.pick(ALPHABETS)
        self.vec = None
        if r.chance(400):
            base = r.pick([(), (2,)])
            axis = r.pick([0, 0, -1, 1]) if base else r.pick([0, -1])
            self.vec = (1 + r.draw(3), axis, base)
        self.roots = []   # [real, ref]
        self.pures = []   # [real, skel, ref state]
        self.holder = P.Holder()
        self.progs = 0
        self.cur = None

    # ---- values
    def shape(self):
        if self.vec is None:
            return ()
        n, axis, base = self.vec
        s = list(base)
        s.insert(axis if axis >= 0 else len(base) + 1 + axis, n)
        return tuple(s)

    def fresh(self):
        self.token += 1
        return float(self.token)

    def graph(self):
        r = self.run
        n = 1 + r.draw(4)
        reals, refs = [], []
        for i in range(n):
            cls = r.pick([Body, Body2, DictBody])
            reals.append(cls())
            refs.append(RMod(cls))
            if i == 0 or r.chance(700):
                P.put(reals[i], refs[i], "w", RVar("Param", M.refarr(2.0)))
            if r.chance(200):
                P.put(reals[i], refs[i], "raw", M.refarr(3.0))
            if r.chance(150):
                P.put(reals[i], refs[i], "k", 5)
            if r.chance(200):
                # a log that exists from the start, with metadata of its own
                v = RVar(r.pick(SOWN), (), {"note": "n"})
                name = r.pick(self.names)
                setattr(reals[i], name, M.KINDS[v.kind]((), **v.meta))
                refs[i].attrs[name] = v
        for i in range(1, n):
            P.link(reals, refs, r.draw(i), i, f"m{i}")
        for e in range(r.draw(3)):
            P.link(reals, refs, r.draw(n), r.draw(n), f"s{e}")
        self.add(reals[0], refs[0])

    def add(self, real, ref):
        if len(self.roots) >= 4:
            self.roots.pop(1)
        self.roots.append([real, ref])

    def check(self, what):
        for i, (real, ref) in enumerate(self.roots):
            d = M.graph_diff(real, ref)
            if d:
                raise Violation(f"{what}", f"module {i} after {what}: {d}")
        for i, (real, skel, ref) in enumerate(self.pures):
            d = M.state_diff(real.get_state(), ref)
            if d:
                raise Violation(f"snapshot:{what}", f"snapshot {i} after {what}: {d}")


# ---- generation
def gen_prog(w, depth=0, inside=False, wrapped=()):
    """inside: under a transform; scan bodies see slices, so nothing else nests in them."""
    r = w.run
    instrs = []
    for _ in range(1 + r.draw(4)):
        k = r.weighted([("sow", 6), ("pop", 2), ("point", 2), ("bad", 1), ("call", 2 if depth < 2 else 0),
                        ("outer", 1 if inside else 0)])
        ref = w.cur
        path, m = P.walk_path(r, ref)
        if k == "sow":
            instrs.append(("sow", path, r.pick(SOWN), r.pick([w.names[0], *w.names[:2]]), w.fresh(),
                           r.pick(["arr", "arr", "arr", "pair", "dict", "twice"])))
        elif k == "pop":
            instrs.append(("pop", path, gen_filters(r, inside)))
        elif k == "bad":
            instrs.append(("bad", path, r.pick(["w", "raw", "k", "m1", "s0", "ready", "log", "aux"])))
        elif k == "outer":
            instrs.append(("outer", r.pick(["sow", "pop"])))
        elif k == "call":
            kinds = ["plain", "jit", "remat", "grad", "jit"]
            if w.vec and not wrapped:
                kinds += ["scan", "scan"]
            kind = grad_or(r.pick(kinds), m)
            save, w.cur = w.cur, m
            sub = gen_prog(w, depth + 1, inside or kind != "plain", wrapped + ((kind,) if kind == "scan" else ()))
            w.cur = save
            instrs.append(("call", kind, path, sub, r.chance(150), gen_opts(r) if kind == "scan" else None,
                           r.chance(300)))
        else:
            instrs.append(("point",))
    w.progs += 1
    return Prog(instrs, f"p{w.progs}")


def grad_or(kind, ref):
    """nnx.grad needs something to differentiate."""
    if kind == "grad" and not any(isinstance(v, RVar) and v.kind == "Param" for *_, v in M.iter_state(ref)):
        return "jit"
    return kind


def gen_opts(r):
    return (r.chance(400), r.pick([1, 1, 2]), r.chance(500))


def gen_filters(r, inside, everything=False):
    """Filters for a pop; inside transforms they select sown kinds only."""
    def one():
        c = r.draw(8)
        if c <= 3:
            return M.kind_filter(r.pick(SOWN))
        if c == 4:
            return M.any_filter(M.kind_filter(r.pick(SOWN)), M.kind_filter(r.pick(SOWN)))
        if c == 5:
            return M.path_filter(r.pick(["log", "aux"])) if not inside else M.kind_filter("Intermediate")
        if c == 6:
            return M.all_filter(M.kind_filter(r.pick(SOWN)), M.path_filter(r.pick(["log", "m1", "s0"])))
        return M.all_filter(M.kind_filter("Variable"), M.not_filter(M.kind_filter("Param")))

    fs = tuple(one() for _ in range(r.pick([1, 1, 1, 2, 3])))
    if everything:
        fs += (M.REST,)
    return fs


# ---- the reference
def ref_value(form, v):
    if form == "pair":
        return (v, v + np.float32(0.5))
    if form == "dict":
        return {"v": v}
    return v


def ref_sow(m, kind, name, value):
    """None, or the reason to refuse."""
    if name in ("ready", "busy") and m.cls is Body2:
        return "not a variable"
    cur = m.attrs.get(name)
    if cur is None and name in ("log", "aux", "h"):
        m.attrs[name] = RVar(kind, (value,))
        return None
    if cur is None:
        m.attrs[name] = RVar(kind, (value,))
        return None
    if not isinstance(cur, RVar):
        return "not a variable"
    if cur.kind != kind:
        return "other kind"
    if not isinstance(cur.value, tuple):
        return "not a log"
    m.attrs[name] = RVar(cur.kind, cur.value + (value,), cur.meta)
    return None


def ref_pop(root, filters):
    out = [dict() for _ in filters]
    for p, m, n, v in M.iter_state(root):
        for o, f in zip(out, filters):
            if f.pred(p, v):
                o[p] = v
                del m.attrs[n]
                break
    return out


class Failed(Exception):
    """The reference execution reached the point where the fault strikes."""


class RefRun:
    def __init__(self, w, at):
        self.w, self.at = w, at

    def hit(self, where):
        if where == self.at:
            raise Failed

    def run(self, prog, m, x, returned):
        """x and sown values keep their full shape, also for scans: all is elementwise."""
        self.hit(f"{prog.name} start")
        for i, ins in enumerate(prog.instrs):
            k = ins[0]
            if k == "sow":
                _, path, kind, name, token, form = ins
                for _ in range(1 + (form == "twice")):
                    ref_sow(M.resolve(m, path), kind, name, ref_value(form, (x + np.float32(token)).astype(np.float32)))
            elif k == "pop":
                returned.append(ref_pop(M.resolve(m, ins[1]), ins[2]))
            elif k == "point":
                self.hit(f"{prog.name} point {i}")
            elif k == "call":
                _, kind, path, sub, stateless, opts, again = ins
                t = M.resolve(m, path)
                if kind == "plain":
                    self.run(sub, t, x, returned)
                    continue
                stateful = not (stateless and kind in ("jit", "grad"))
                for _ in range(1 + again):
                    copy = M.copy_graph(t)
                    self.run(sub, copy, x, returned)
                    if stateful:
                        P.write_back(t, copy)
                self.hit(f"{prog.name} after {i}")


# ---- the real side
def real_value(form, v):
    if form == "pair":
        return (v, v + 0.5)
    if form == "dict":
        return {"v": v}
    return v


def make_fn(w, prog, rt, depth=0):
    """rt: what the traced code needs from the current call (fault holder, outer module)."""
    subs = {}
    for i, ins in enumerate(prog.instrs):
        if ins[0] != "call":
            continue
        _, kind, path, sub, stateless, opts, again = ins
        f = make_fn(w, sub, rt, depth + 1)
        subs[i] = transform(w, kind, f, stateless, opts)

    def fn(m, x):
        rt.holder.hit(f"{prog.name} start")
        returned = []
        for i, ins in enumerate(prog.instrs):
            k = ins[0]
            if k == "sow":
                _, path, kind, name, token, form = ins
                t = P.resolve_real(m, path)
                v = real_value(form, x + token)
                for _ in range(1 + (form == "twice")):
                    try:
                        t.sow(M.KINDS[kind], name, v)
                    except ValueError:
                        rt.refused += 1
            elif k == "pop":
                got = P.resolve_real(m, ins[1]).pop_state(*(f.real for f in ins[2]))
                returned.append(got if isinstance(got, tuple) else (got,))
            elif k == "point":
                rt.holder.hit(f"{prog.name} point {i}")
            elif k == "bad":
                t = P.resolve_real(m, ins[1])
                bad_sow(w, t, ins[2])
            elif k == "outer":
                try_outer(w, rt.outer, ins[1])
            elif k == "call":
                _, kind, path, sub, stateless, opts, again = ins
                t = P.resolve_real(m, path)
                for _ in range(1 + (again and kind != "plain")):
                    returned += subs[i](t, x)
                if kind != "plain":
                    rt.holder.hit(f"{prog.name} after {i}")
        return returned

    fn.__name__ = f"produce{depth}"
    return fn


def bad_sow(w, t, name):
    """Recording under a name that holds something else is refused."""
    cur = vars(t).get(name)
    if cur is None and not hasattr(type(t), name):
        return
    kinds = [k for k in SOWN if not (isinstance(cur, nnx.Variable) and type(cur) is M.KINDS[k])]
    try:
        t.sow(M.KINDS[kinds[0]], name, jnp.float32(0))
    except Violation:
        raise
    except Exception:  # noqa: BLE001
        return
    raise Violation("bad sow accepted", f"sow under {name!r}, which holds a {type(cur).__name__}")


def try_outer(w, outer, what):
    """A module of the level outside refuses both."""
    if outer is None:
        return
    try:
        if what == "sow":
            outer.sow(nnx.Intermediate, "foreign", jnp.float32(0))
        else:
            if not outer.pop_state(nnx.Variable):
                return
    except nnx.TraceContextError:
        return
    raise Violation("outer " + what + " accepted", f"{what} on the module outside the transform")


def transform(w, kind, f, stateless, opts):
    if kind == "plain":
        return f
    if kind == "jit":
        return nnx.jit(f, stateful=not stateless)
    if kind == "remat":
        return nnx.remat(f)
    if kind == "grad":
        def loss(m, x):
            return jnp.sum(x) * 0, f(m, x)

        g = nnx.grad(loss, wrt=nnx.Param, has_aux=True, stateful=not stateless)
        return lambda m, x: g(m, x)[1]
    n, axis, base = w.vec
    reverse, unroll, pass_length = opts

    def step(m, c, x):
        return c + 1, f(m, x)

    s = nnx.scan(step, variable_axes={tuple(M.KINDS[k] for k in SOWN): axis}, in_axes=axis, out_axes=axis,
                 reverse=reverse, unroll=unroll, length=n if pass_length else None)

    def call(m, x):
        c, out = s(m, jnp.int32(0), x)
        return out

    return call


class Rt:
    def __init__(self, holder):
        self.holder, self.outer, self.refused = holder, None, 0


# ------------------------------------------------------------------ operations
def pick(w):
    """A handle, and a module reachable from it."""
    r = w.run
    root, ref = r.pick(w.roots)
    path, m = P.walk_path(r, ref)
    return root, ref, P.resolve_real(root, path), m, path


def op_sow(w, world=None):
    r = w.run
    _, _, real, ref, path = pick(w)
    kind, name = r.pick(SOWN), r.pick([*w.names, w.names[0], w.names[0], "ready"])
    form = r.pick(["arr", "arr", "pair", "dict", "float", "numpy"] if w.vec is None else ["arr", "arr", "pair"])
    v = np.full(w.shape(), w.fresh(), np.float32)
    a = float(v) if form == "float" else v if form == "numpy" else jnp.asarray(v)
    for _ in range(r.pick([1, 1, 1, 1, 2, 3])):  # the very same value again
        sow_one(w, real, ref, path, kind, name, form, v, a)
        if r.chance(300):
            _, _, real, ref, path = pick(w)


def sow_one(w, real, ref, path, kind, name, form, v, a):
    r = w.run
    want = ref_sow(ref, kind, name, ref_value(form, v))
    ok, e = r.attempt(real.sow, M.KINDS[kind], name, real_value(form, a))
    r.ev("sow", "/".join(path), kind, name, w.token, form, want or "ok")
    if want is None and not ok:
        raise Violation(f"sow:{type(e).__name__}", f"sow was refused: {e}") from e
    if want is not None:
        r.probe(f"refused sow: {want}")
        r.check(not ok, "bad sow accepted", f"{kind} under {name}: {want}")


def pop_both(w, real, ref, filters, what):
    got = w.run.must(what, real.pop_state, *(f.real for f in filters))
    want = ref_pop(ref, filters)
    check_popped(got, want, what)
    n = sum(len(v.value) if isinstance(v, RVar) and isinstance(v.value, tuple) else 1 for s in want for v in s.values())
    w.run.probe("values collected", ) if n else None
    return n


def check_popped(got, want, what):
    if len(want) == 1 and not isinstance(got, tuple):
        got = (got,)
    if not isinstance(got, tuple) or len(got) != len(want):
        raise Violation(f"{what}: result", f"{M.desc(got)} instead of {len(want)} states")
    for i, (g, s) in enumerate(zip(got, want)):
        d = M.state_diff(g, s)
        if d:
            raise Violation(f"{what}: wrong values", f"state {i}: {d}")


def op_pop(w):
    r = w.run
    _, _, real, ref, path = pick(w)
    filters = gen_filters(r, False, r.chance(60))
    c = r.draw(6)
    if c == 0:
        # the filter fails on the n-th variable it sees
        at, seen = 1 + r.draw(4), [0]

        def failing(p, x):
            seen[0] += 1
            if seen[0] == at:
                raise Injected("filter")
            return True

        total = len(M.state_of(ref))
        n = r.draw(len(filters) + 1)
        reals = [f.real for f in filters]
        reals.insert(n, failing)
        ok, e = r.attempt(real.pop_state, *reals)
        r.ev("pop with failing filter", "/".join(path), at, "ok" if ok else type(e).__name__)
        if ok:
            # it was never asked often enough to fail
            fs = list(filters)
            fs.insert(n, M.F("all", failing, lambda p, v: True))
            check_popped(e, ref_pop(ref, fs), "pop")
        else:
            r.fault("filter fails in pop")
            r.check(isinstance(e, Injected), f"pop:{type(e).__name__}", lambda: str(e))
        del total
        return
    if c == 1:
        bad = r.pick(["number", "none"])
        ok, e = r.attempt(real.pop_state, *([3.5] if bad == "number" else []))
        r.ev("pop refused", bad, type(e).__name__)
        r.check(not ok, "bad pop accepted", bad)
        return
    n = pop_both(w, real, ref, filters, "pop")
    r.ev("pop", "/".join(path), repr(filters), n)


FAULTS = ["exception", "interrupt", "shape error", "concretization error"]


def op_produce(w):
    """A producer program, direct or transformed, which may fail."""
    r = w.run
    root, rref, real, ref, path = pick(w)
    kinds = ["plain", "jit", "jit", "grad", "remat"] + (["scan"] * 4 if w.vec else [])
    kind = grad_or(r.pick(kinds), ref)
    w.cur = ref
    prog = gen_prog(w, 0, kind != "plain", ("scan",) if kind == "scan" else ())
    opts = gen_opts(r)
    stateless = kind in ("jit", "grad") and r.chance(120)
    rt = Rt(w.holder)
    rt.outer = root if kind != "plain" else None
    fn = transform(w, kind, make_fn(w, prog, rt), stateless, opts)
    r.ev("produce", kind, "/".join(path), repr(prog), repr(opts), "stateless" if stateless else "")
    for n in range(1 + r.draw(2)):
        one_call(w, kind, fn, prog, real, ref, stateless, rt)


def one_call(w, kind, fn, prog, real, ref, stateless, rt):
    r = w.run
    x = np.full(w.shape(), 1000.0 * (1 + r.draw(3)), np.float32)
    if w.vec:
        n, axis, base = w.vec
        x = x + np.moveaxis(np.arange(n, dtype=np.float32).reshape((n,) + (1,) * len(base)) * 100 + np.zeros((n, *base), np.float32), 0, axis)
    arm = r.draw(4)
    armed, seam = None, None
    if arm == 1:
        armed = Fault(r, r.pick(prog.labels()), r.pick(FAULTS))
    elif arm == 2 and kind != "plain" and w.seam is not None:
        names = {"jit": "jit", "grad": "grad", "remat": "checkpoint", "scan": r.pick(["scan", "eval_shape"])}
        seam = (names[kind], r.pick(["before", "after"]), 1 + r.draw(2))
        w.seam.arm(*seam)
    w.holder.armed = armed
    how = r.pick(["call", "call", "method", "apply", "pure"]) if kind == "plain" else "call"
    target = real
    pure = None
    if how == "call":
        call = lambda: fn(real, jnp.asarray(x))  # noqa: E731
    elif how == "method":
        call = lambda: real.go(fn, jnp.asarray(x))  # noqa: E731
    elif how == "apply":
        call = lambda: real.apply.go(fn, jnp.asarray(x))  # noqa: E731
    else:
        pure = real.partition()
        call = lambda: pure.apply.go(fn, jnp.asarray(x))  # noqa: E731
    ok, out = r.attempt(call)
    w.holder.armed = None
    seam_fired = w.seam.disarm() if seam else False
    failed = seam_fired or (armed is not None and armed.fired)
    error = None if ok or failed else out
    if failed:
        r.check(not ok, "fault swallowed", kind)
        r.probe(f"{'jax call' if seam_fired else armed.action} failed a {kind} producer")
    r.ev("call", how, "ok" if ok else type(out).__name__)
    # what the reference makes of it
    rr = RefRun(w, armed.at if armed is not None and armed.fired and kind in ("plain",) else None)
    if kind == "plain":
        t = M.copy_graph(ref) if how in ("apply", "pure") else ref
        returned = []
        try:
            # a fault inside a transformed sub-call undoes that call only
            rr.run(prog, t, x, returned)
        except Failed:
            pass
        if ok:
            if how in ("apply", "pure"):
                got, new = out
                if how == "apply":
                    d = M.graph_diff(new, t)
                    r.check(d is None, "apply result", lambda: d)
                    w.add(new, t)
                else:
                    d = M.state_diff(new.get_state(), M.state_of(t))
                    r.check(d is None, "pure apply result", lambda: d)
                    w.pures.append([new, M.skeleton(t), M.state_of(t)])
                    del w.pures[:-3]
                out = got
            compare(out, returned, kind)
    elif not failed:
        copy = M.copy_graph(ref)
        returned = []
        rr.run(prog, copy, x, returned)
        if not stateless:
            P.write_back(ref, copy)
        if ok:
            compare(out, returned, kind)
    if error is not None:
        raise Violation(f"call failed:{type(error).__name__}", f"{kind}: {error}") from error
    if how == "pure":
        d = M.state_diff(pure.get_state(), M.state_of(ref))
        r.check(d is None, "pure module changed by apply", lambda: d)
    w.check(f"{kind} call")


def compare(out, returned, kind):
    if len(out) != len(returned):
        raise Violation(f"{kind}: pops returned", f"{len(out)} results instead of {len(returned)}")
    for got, want in zip(out, returned):
        check_popped(tuple(got), want, f"pop in {kind}")


def op_clone(w):
    r = w.run
    real, ref = r.pick(w.roots)
    how = r.pick(["clone", "merge", "copy"])
    if how == "clone":
        new = real.clone()
    elif how == "merge":
        new = real.partition().merge()
    else:
        import copy

        new = copy.deepcopy(real)
    w.add(new, M.copy_graph(ref))
    r.ev(how)


def op_partition(w):
    r = w.run
    real, ref = r.pick(w.roots)
    w.pures.append([real.partition(), M.skeleton(ref), M.state_of(ref)])
    del w.pures[:-3]
    r.ev("partition")


def op_pure_pop(w):
    """A pop from a snapshot gives a new snapshot; the old one and the module keep all."""
    r = w.run
    if not w.pures:
        return op_partition(w)
    p = w.pures[r.draw(len(w.pures))]
    filters = gen_filters(r, False)
    got, new = r.must("pure pop", p[0].pop_state, *(f.real for f in filters))
    *want, rest = M.split(p[2], filters)
    check_popped(got, want, "pure pop")
    d = M.state_diff(new.get_state(), rest)
    r.check(d is None, "pure pop: rest", lambda: d)
    w.check("pure pop")
    if r.chance(600):
        p[0], p[2] = new, rest
    r.ev("pure pop", repr(filters), sum(map(len, want)))


def op_update(w):
    """A snapshot's values are written back into a module of the same graph."""
    r = w.run
    if not w.pures:
        return op_partition(w)
    p = r.pick(w.pures)
    real, ref = r.pick(w.roots)
    trial = M.copy_graph(ref)
    try:
        for path, v in p[2].items():
            *mp, n = path.split("/")
            m = M.resolve(trial, mp)
            if m is None:
                raise Refused("path")
            M.set_attr(m, n, v)
    except Refused:
        return None
    r.must("update_state", real.update_state, p[0] if r.chance(500) else p[0].get_state())
    for path, v in p[2].items():
        *mp, n = path.split("/")
        M.set_attr(M.resolve(ref, mp), n, v)
    r.ev("update")


def op_link(w):
    r = w.run
    _, _, a, ra, pa = pick(w)
    b = r.draw(len(w.roots))
    _, _, c, rc, pc = pick(w)
    name = r.pick(["s0", "s1", "x0"])
    if isinstance(ra.attrs.get(name), RVar):
        return
    setattr(a, name, c)
    ra.attrs[name] = rc
    del b
    r.ev("link", "/".join(pa), name, "/".join(pc))


OPS = [(op_sow, 6), (op_pop, 5), (op_produce, 6), (op_clone, 1), (op_partition, 1), (op_pure_pop, 1), (op_update, 1),
       (op_link, 1)]


def history(w, n):
    r = w.run
    for _ in range(n):
        op = r.weighted(OPS)
        # the other tasks' modules are checked too: nothing leaks across
        who = op.__name__
        if not w.threaded:
            r.ran(who)
        op(w)
        w.check(who)
        r.step()
        sched.point("between operations")


def drain(w):
    """At the end every value still recorded comes out, once."""
    r = w.run
    filters = (M.any_filter(M.kind_filter("Intermediate"), M.kind_filter("Cache")), M.kind_filter("Tag"))
    for real, ref in w.roots:
        n = pop_both(w, real, ref, filters, "drain")
        r.ev("drain", n)
        w.check("drain")
        r.check(pop_both(w, real, ref, filters, "second drain") == 0, "value collected twice", "")


def run(r):
    if r.chance(850):
        with P.Seam(r) as seam:
            w = World(r)
            w.threaded, w.seam = False, seam
            w.graph()
            history(w, 4 + r.draw(9))
            drain(w)
        r.nontrivial = w.token > 2
        return
    n = 2 + r.draw(2)
    worlds = []

    def body(i, rr):
        def go():
            w = World(rr)
            w.threaded, w.seam = True, None
            w.graph()
            worlds.append(w)
            for _ in range(2):
                history(w, 1 + rr.draw(3))
                foreign(w)
            drain(w)
            return w

        return go

    def foreign(w):
        others = [o for o in worlds if o is not w]
        if not others:
            return
        real, _ = w.run.pick(others).roots[0]
        what = w.run.pick(["sow", "pop"])
        try_outer(w, real, what)
        w.run.probe("foreign thread refused")

    ws = sched.threads(r, [(f"t{i}", body(i, r.sub(f"w{i}"))) for i in range(n)])
    for w in ws:
        w.threaded = False
    r.nontrivial = sum(w.token for w in ws) > 4
