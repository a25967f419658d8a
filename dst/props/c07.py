"""C07: one jitted function called over a history of near-identical modules.

The function computes a code from everything a trace can see of its module (classes,
attribute names, sharing, static values, variable kinds and metadata, initialisation
mode, shapes) and updates variables with it, so a trace used for the wrong module gives
a wrong number. Calls are compared with calling the plain function on a twin module.
Between calls: failing traces, cache clears, calls of other functions and other threads.
"""
import contextlib
import threading

import jax
import jax.numpy as jnp
import numpy as np

from dst import model as M, sched
from dst.core import INJECTED, Injected, InjectedInterrupt, Violation
from dst.model import nnx


class A(nnx.Module):
    factor = 1

    def __init__(self):
        pass

    def invoke(self, fn, *a, **kw):
        return fn(self, *a, **kw)


class B(A):
    factor = 2


def _same_name():
    class A(globals()["A"]):  # noqa: F811
        factor = 3

    A.__qualname__ = "A"
    return A


CLASSES = [A, B, _same_name()]
STATICS = [2, 3, 5, "a", "b", None, (2, 3), (3, 2), 2.5, "tuple",
           2.0, np.float32(2), np.int32(2), (2,), (2.0, 3), 1, True, 1.0, 0, False, 0.0, -0.0, (0.0,), (-0.0,)]
# values that compare equal, or that numpy compares element by element
ALIKE = [[2, 2.0, np.float32(2), np.int32(2), (2,)], [1, True, 1.0], [0, False, 0.0, -0.0], [(0.0,), (-0.0,)],
         [(2, 3), (2.0, 3), np.float32(2)]]
METAS = [{"tag": 1}, {"tag": True}, {"tag": 1.0}, {"tag": (1, 2)}, {"tag": (1.0, 2)}, {}, {"tag": "x"}, {"tag": "y"}, {"other": "x"}, {"sharding": ("x", None)}, {"sharding": (None, "x")},
         {"tag": "x", "other": "x"}]
FLAGS = [{}, {"train": True}, {"train": False}, {"train": True, "deep": False}, {"deep": True, "train": False}, {"deep": True}]
STREAMS = [("params",), ("dropout",), ("params", "dropout"), ("noise", "dropout")]
KINDS = ["Param", "BatchStat", "Cache", "Tag", "SubParam", "Node", "Intermediate"]


# ------------------------------------------------------------------ recipes
def gen_recipe(r):
    """[{'cls': i, 'attrs': {name: spec}}]: node 0 is the root; 'mod' specs refer to nodes."""
    nodes = []

    def node(depth):
        i = len(nodes)
        n = {"cls": r.draw(2), "attrs": {}}
        nodes.append(n)
        for name in ("a", "b", "k", "s")[: 1 + r.draw(4)]:
            n["attrs"][name] = gen_attr(r, name)
        n["attrs"]["v"] = ("var", "Param", 0, float(r.draw(5)), ())
        for name in ("m0", "m1", "m2"):
            if depth < 2 and len(nodes) < 5 and r.chance(500):
                if i < len(nodes) - 1 and r.chance(300):
                    n["attrs"][name] = ("mod", i + 1 + r.draw(len(nodes) - i - 1))
                else:
                    n["attrs"][name] = ("mod", len(nodes))
                    node(depth + 1)
        return i

    node(0)
    return nodes


def gen_attr(r, name):
    if name == "k":
        return ("static", r.draw(len(STATICS)))
    if name == "s":
        return ("box", r.draw(len(STATICS)))
    if r.chance(250):
        return ("arr", float(r.draw(5)), r.pick([(), (2,)]))
    return ("var", r.pick(KINDS[:3]), r.pick([0, 0, 1, 4]), float(r.draw(5)), r.pick([(), (2,)]))


def copy_recipe(rc):
    return [{"cls": n["cls"], "attrs": dict(n["attrs"])} for n in rc]


def other(r, n, cur):
    return (cur + 1 + r.draw(n - 1)) % n


def other_static(r, cur):
    """The index of another value, often of one that looks the same."""
    groups = [g for g in ALIKE if any(same(x, STATICS[cur]) for x in g)]
    if groups and r.chance(600):
        x = r.pick([x for x in r.pick(groups) if not same(x, STATICS[cur])])
        return next(i for i, y in enumerate(STATICS) if same(x, y))
    return other(r, len(STATICS), cur)


def same(x, y):
    return shape_of(x) == shape_of(y)


def mutate(r, rc):
    """A recipe that differs in one respect."""
    rc = copy_recipe(rc)
    n = r.pick(rc)
    at = n["attrs"]

    def having(*kinds):
        return [k for k, s in sorted(at.items()) if s[0] in kinds]

    for _ in range(12):
        k = r.pick(["class", "static", "kind", "meta", "share", "rename", "add static", "add module", "swap",
                    "box", "drop", "shape", "array", "value"])
        if k == "class":
            n["cls"] = other(r, len(CLASSES), n["cls"])
            return rc, k
        if k == "static" and having("static"):
            a = r.pick(having("static"))
            at[a] = ("static", other_static(r, at[a][1]))
            return rc, k
        if k == "kind" and having("var"):
            a = r.pick(having("var"))
            s = at[a]
            at[a] = (s[0], KINDS[other(r, len(KINDS), KINDS.index(s[1]))], *s[2:])
            return rc, k
        if k == "meta" and having("var"):
            a = r.pick(having("var"))
            s = at[a]
            at[a] = (*s[:2], other(r, len(METAS), s[2]), *s[3:])
            return rc, k
        if k == "share":
            mods = having("mod")
            if len(mods) >= 2:
                a, b = mods[0], mods[-1]
                if at[a][1] == at[b][1]:
                    # not shared any more: an equal node of its own
                    src = rc[at[a][1]]
                    rc.append({"cls": src["cls"], "attrs": dict(src["attrs"])})
                    at[b] = ("mod", len(rc) - 1)
                else:
                    at[b] = at[a]
                return rc, k
            if len(mods) == 1:
                at["m2" if mods[0] != "m2" else "m1"] = at[mods[0]]
                return rc, k
        if k == "rename":
            names = [x for x in having("static", "var", "arr", "mod") if x != "v"]
            if names:
                a = r.pick(names)
                at[r.pick([a + "_", "_u" + a])] = at.pop(a)
                return rc, k
        if k == "add static" and "extra" not in at:
            at["extra"] = ("static", r.draw(len(STATICS)))
            return rc, k
        if k == "add module" and "mx" not in at:
            rc.append({"cls": r.draw(2), "attrs": {}})
            at["mx"] = ("mod", len(rc) - 1)
            return rc, k
        if k == "swap":
            mods = having("mod")
            if len(mods) >= 2 and at[mods[0]] != at[mods[1]]:
                at[mods[0]], at[mods[1]] = at[mods[1]], at[mods[0]]
                return rc, k
        if k == "box" and having("box"):
            a = r.pick(having("box"))
            s = at[a]
            at[a] = ("box", other_static(r, s[1]))
            return rc, k
        if k == "drop":
            names = [x for x in sorted(at) if x != "v"]
            if names:
                del at[r.pick(names)]
                return rc, k
        if k == "shape" and having("var", "arr"):
            a = r.pick(having("var", "arr"))
            s = at[a]
            at[a] = (*s[:-1], (2,) if s[-1] == () else ())
            return rc, k
        if k == "array" and having("arr"):
            a = having("arr")[0]
            at[a] = ("var", "Param", 0, at[a][1], at[a][2])
            return rc, k
        if k == "value" and having("var"):
            a = r.pick(having("var"))
            s = at[a]
            at[a] = (*s[:3], s[3] + 1.0, s[4])
            return rc, k
    return rc, "none"


def build(rc):
    made = {}

    def go(i):
        if i in made:
            return made[i]
        n = rc[i]
        m = made[i] = CLASSES[n["cls"]]()
        for a, s in n["attrs"].items():
            if s[0] == "mod":
                v = go(s[1])
            elif s[0] == "static":
                v = STATICS[s[1]]
            elif s[0] == "box":
                v = nnx.Static(STATICS[s[1]])
            elif s[0] == "arr":
                v = M.arr(s[1], s[2])
            else:
                v = M.KINDS[s[1]](M.arr(s[3], s[4]), **METAS[s[2]])
            setattr(m, a, v)
        return m

    return go(0)


# ------------------------------------------------------------------ what a trace can see
def describe(m):
    seen = {}
    out = []

    def go(x):
        if id(x) in seen:
            out.append(f"@{seen[id(x)]}")
            return
        seen[id(x)] = len(seen)
        out.append(f"{type(x).__name__}{type(x).factor}{x.is_initializing}(")
        for n, v in sorted(M.real_attrs(x).items()):
            out.append(n)
            if isinstance(v, nnx.Module):
                go(v)
            elif isinstance(v, nnx.Container):
                meta = {k: y for k, y in sorted(vars(v).items()) if k != "value" and y is not None}
                out.append(f"{type(v).__name__}{meta}")
                out.append(shape_of(v.value))
            else:
                out.append(shape_of(v))
        out.append(")")

    go(m)
    return " ".join(out)


def shape_of(v):
    if isinstance(v, (jax.Array, np.ndarray)):
        return f"array{jnp.shape(v)}{jnp.result_type(v)}"
    if isinstance(v, tuple):
        return "(" + ",".join(map(shape_of, v)) + ")"
    return f"{type(v).__name__}:{v!r}"


def code(s):
    h = 0
    for c in s.encode():
        h = (h * 31 + c) % 499
    return float(h)


def leaves(m):
    return [x for v in m.get_state().values() for x in jax.tree_util.tree_leaves(v)]


class Fn(threading.local):
    """The user function, with a switch that makes its next trace in this thread fail."""

    fail = None
    traces = 0
    last = ""
    __name__ = "fn"

    def __init__(self, shared=False):
        self.shared = shared

    def __call__(self, m, x, opt="o", *, kw=None, ctx=None):
        # two threads may call one jitted function: jax holds a lock of its cache while tracing
        with sched.atomic() if self.shared else contextlib.nullcontext():
            return self.body(m, x, opt, kw, ctx)

    def body(self, m, x, opt, kw, ctx):
        self.traces += 1
        if self.fail is not None:
            f, self.fail = self.fail, None
            if f == "late":
                m.v = m.v * 0 - 1
                f = "exception"
            raise {"exception": Injected, "interrupt": InjectedInterrupt}[f]("trace")
        x = jnp.asarray(x)
        self.last = describe(m)
        c = code(describe(m) + shape_of(x) + shape_of(opt) + ("kw" if kw is not None else "")
                 + see(ctx))
        if ctx is not None:
            for n in ("params", "dropout", "noise"):
                for _ in range(2 if ctx.has_rng(n) else 0):
                    c = c + jax.random.randint(ctx.make_rng(n), (), 0, 64).astype(jnp.float32)
        vec = jnp.concatenate([jnp.ravel(jnp.asarray(v, jnp.float32)) for v in
                               [*leaves(m), x, *([] if kw is None else [kw])]])
        total = vec @ np.arange(1, vec.shape[0] + 1, dtype=np.float32) + c
        m.v = m.v + c
        deep = [p for p in m.get_state() if p.count("/") and p.endswith("/v")]
        for j, p in enumerate(deep):
            h = walk(m, p)
            h.v = h.v + (j + 2) * c
        if not hasattr(m, "made"):
            m.made = nnx.Cache(jnp.float32(c))
        return total


def see(ctx):
    """What code sees of a context, keys apart."""
    if ctx is None:
        return ""
    return str([(n, ctx.has_flag(n), ctx.get_flag(n)) for n in ("train", "deep")]
               + [n for n in ("params", "dropout", "noise") if ctx.has_rng(n)])


def walk(m, p):
    for n in p.split("/")[:-1]:
        m = getattr(m, n)
    return m


def diff(a, b):
    da, db = describe(a), describe(b)
    if da != db:
        return f"{da} instead of {db}"
    sa, sb = a.get_state(), b.get_state()
    for p in sb:
        for x, y in zip(jax.tree_util.tree_leaves(sa[p]), jax.tree_util.tree_leaves(sb[p])):
            if not np.array_equal(np.asarray(x), np.asarray(y)):
                return f"{p}: {np.asarray(x).tolist()} instead of {np.asarray(y).tolist()}"
    return None


def pairs(real, twin):
    """The modules of two graphs of the same form, side by side."""
    out, seen = [], set()

    def go(a, b):
        if id(a) in seen:
            return
        seen.add(id(a))
        out.append((a, b))
        for n, v in sorted(M.real_attrs(a).items()):
            if isinstance(v, nnx.Module):
                go(v, vars(b)[n])

    go(real, twin)
    return out


class Caller:
    """A history of calls; several of them share functions when in threads."""

    def __init__(self, r, name, fns, recipes):
        self.r, self.name, self.fns, self.recipes = r, name, fns, recipes
        self.kept, self.contexts = {}, {}
        self.with_ctx = r.chance(300)

    def context(self):
        """Two equal contexts, one for each side; some have been through calls."""
        r = self.r
        if not self.with_ctx or r.chance(250):
            return None
        # contexts often differ from the one before in one respect
        f, s, n, seed = r.draw(len(FLAGS)), r.draw(len(STREAMS)), r.draw(3), r.draw(3)
        if self.contexts and r.chance(800):
            old = list(r.pick(list(self.contexts)))
            i = r.draw(5)
            if i < 4:
                old[i] = (f, s, n, seed)[i]
            f, s, n, seed = old
        if (f, s, n, seed) in self.contexts and r.chance(500):
            return (f, s, n, seed)
        both = []
        for _ in range(2):
            c = nnx.context(flags=FLAGS[f], **{k: seed + j for j, k in enumerate(STREAMS[s])})
            for _ in range(n):
                c.make_rng(STREAMS[s][0])
            both.append(c)
        self.contexts[f, s, n, seed] = both
        return (f, s, n, seed)

    def edit(self, real, twin):
        """Change one thing of a module that has been through calls, on both sides."""
        r = self.r
        both = pairs(real, twin)
        m = r.draw(len(both))
        attrs = M.real_attrs(both[m][0])
        static = [n for n, v in sorted(attrs.items()) if not isinstance(v, (nnx.Module, nnx.Container, jax.Array, np.ndarray))]
        variables = [n for n, v in sorted(attrs.items()) if isinstance(v, nnx.Variable) and n != "v"]
        subs = [n for n, v in sorted(attrs.items()) if isinstance(v, nnx.Module)]
        k = r.pick(["static", "static", "add", "drop", "kind", "meta", "share", "swap", "new", "order"])
        if k == "static" and static:
            n = r.pick(static)
            now = [i for i, x in enumerate(STATICS) if same(x, attrs[n])]
            v = STATICS[other_static(r, now[0]) if now else r.draw(len(STATICS))]
            does = lambda x: setattr(x, n, v)
        elif k == "drop" and static + variables + subs:
            n = r.pick(static + variables + subs)
            does = lambda x: delattr(x, n)
        elif k == "kind" and variables:
            n, kind = r.pick(variables), M.KINDS[r.pick(KINDS)]
            v = vars(both[m][0])[n].value

            def does(x):
                delattr(x, n)
                setattr(x, n, kind(v))
        elif k == "meta" and variables:
            n, meta = r.pick(variables), METAS[r.draw(len(METAS))]
            kind = type(vars(both[m][0])[n])
            v = vars(both[m][0])[n].value

            def does(x):
                delattr(x, n)
                setattr(x, n, kind(v, **meta))
        elif k == "share":
            n, other = "sh", r.draw(len(both))
            for side in (0, 1):
                setattr(both[m][side], n, both[other][side])
            does = None
        elif k == "swap" and len(subs) > 1:
            a, b = subs[0], subs[-1]

            def does(x):
                x1, x2 = vars(x)[a], vars(x)[b]
                setattr(x, a, x2)
                setattr(x, b, x1)
        elif k == "new":
            n, cls = r.pick(["m0", "m3"]), CLASSES[r.draw(len(CLASSES))]

            def does(x):
                y = cls()
                y.v = nnx.Param(M.arr(3.0, ()))
                setattr(x, n, y)
        elif k == "order" and static:
            # the order of assignment is not a difference
            n = r.pick(static)
            v = attrs[n]

            def does(x):
                delattr(x, n)
                setattr(x, n, v)
        else:
            k = "add"
            n, v = r.pick(["x0", "x1"]), STATICS[r.draw(len(STATICS))]
            does = lambda x: setattr(x, n, v)
        if does is not None:
            for x in both[m]:
                does(x)
        r.ev(f"[{self.name}]", "edit", m, k)
        r.probe(f"edited between calls: {k}")

    def call(self):
        r = self.r
        i = r.draw(len(self.recipes))
        if i in self.kept and r.chance(600):
            real, twin = self.kept[i]
            if r.chance(500):
                self.edit(real, twin)
        else:
            real, twin = build(self.recipes[i]), build(self.recipes[i])
            self.kept[i] = real, twin
        fn, f, stateful, opts = self.fns[0] if r.chance(750) else r.pick(self.fns)
        plain = r.chance(700)  # the same arguments as most other calls
        x = np.float32(r.draw(4)) if plain else r.pick([1.0, 2.0, np.int32(3), np.ones((2,), np.float32)])
        kw = {"kw": np.float32(2)} if not plain and r.chance(400) else {}
        args = (x,)
        if plain:
            pass
        elif opts == "num" or (opts == "name" and r.chance(300)):
            args = (x, r.pick(["o", "p", 2]))
        elif opts == "name":
            kw["opt"] = r.pick(["o", "p", 2])
        if opts == "name" and len(args) == 2:
            kw["opt"] = args[1]
            args = args[:1]
        init = r.chance(150 if plain else 300)
        spec = self.context()
        twin_kw = kw
        if spec is not None:
            ctx, twin_ctx = self.contexts[spec]
            kw = {**kw, "ctx": ctx}
            # a call takes a fork of each stream
            twin_kw = {**kw, "ctx": twin_ctx.partition().merge()}
            r.probe("called with a context")
        fail = None
        if r.chance(150):
            fail = r.pick(["exception", "interrupt", "late"])
        f.fail = fail
        before = f.traces
        desc = f"recipe {i} {'init ' if init else ''}x={x!r} {args[1:]} {sorted(kw)} {spec} stateful={stateful}"
        ok, out = r.attempt(lambda: real.init.invoke(fn, *args, **kw) if init else fn(real, *args, **kw))
        traced = f.traces - before
        f.fail = None
        r.step()
        if not ok:
            if fail is not None and isinstance(out, INJECTED):
                r.fault(f"trace fails by {fail}")
                r.ev(f"[{self.name}]", desc, "failed")
                d = diff(real, twin)
                r.check(d is None, "failed call changed the module", d)
                return
            raise Violation(f"call failed:{type(out).__name__}", f"{desc}: {out}") from out
        target = twin if stateful else twin.clone()
        want = target.init.invoke(f, *args, **twin_kw) if init and stateful else None
        if want is None:
            if init:
                want = twin.init.invoke(lambda m, *a, **k: f(m.clone(), *a, **k), *args, **twin_kw)
            else:
                want = f(target, *args, **twin_kw)
        f.traces = before + traced
        r.ev(f"[{self.name}]", desc, "traced" if traced else "cached", float(out))
        r.probe("trace reused" if not traced else "traced")
        r.check(float(out) == float(want), "result depends on the history", lambda: f"{desc}: {float(out)} instead of {float(want)} ({f.last})")
        d = diff(real, twin)
        r.check(d is None, "module depends on the history", lambda: f"{desc}: {d}")
        if spec is not None and r.chance(300):
            for n in STREAMS[spec[1]]:
                a, b = ctx.make_rng(n), twin_ctx.make_rng(n)
                r.check(np.array_equal(a, b), "context depends on the history", lambda: f"{desc}: stream {n}")


def make_fns(r, n, shared=False):
    out = []
    for _ in range(n):
        f = Fn(shared)
        opts = r.pick(["none", "num", "name"])
        jkw = {"none": {}, "num": {"static_argnums": 2}, "name": {"static_argnames": "opt"}}[opts]
        stateful = not r.chance(200)
        out.append((nnx.jit(f, stateful=stateful, **jkw), f, stateful, opts))
        if r.chance(200):
            out.append((nnx.jit(f, stateful=not stateful, **jkw), f, not stateful, opts))
    return out


def run(r):
    base = gen_recipe(r)
    recipes = [base]
    for _ in range(1 + r.draw(3)):
        rc, what = mutate(r, r.pick(recipes))
        recipes.append(rc)
        r.ev("recipe differs in", what)
        r.probe(f"differs in {what}")
    threads = not r.chance(700)
    if not threads:
        c = Caller(r, "t0", make_fns(r, 1 + r.draw(2)), recipes)
        for _ in range(4 + r.draw(7)):
            if r.chance(25):
                jax.clear_caches()
                r.fault("jit caches cleared")
            c.call()
            r.ran("t0")
    else:
        n = 2 + r.draw(2)
        shared = r.chance(500)
        fns = make_fns(r, 1, True)
        callers = []
        for i in range(n):
            v = r.sub(f"t{i}")
            callers.append(Caller(v, f"t{i}", fns if shared else make_fns(v, 1), recipes))
        if shared:
            r.probe("function shared by threads")

        def body(c):
            def go():
                for _ in range(2 + c.r.draw(2)):
                    c.call()
            return go

        sched.threads(r, [(c.name, body(c)) for c in callers], preempt_tracing=not shared, max_points=5000)
    r.nontrivial = True
    r.state(len(recipes), threads)
