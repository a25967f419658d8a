"""C24: Dict and Sequence containers through histories of edits, snapshots and calls.

Simulated threads own nnx.Dict and nnx.Sequence objects and edit, snapshot, clone, pop,
restore and jit them in random order, with faults in between: element iterables that
fail half-way, edits refused from inside a trace, elements that raise when called. A
Sequence all threads share is called by them at the same time. The reference is a plain
dict, a plain list and a loop that passes one element's result to the next.
"""
import copy

import jax
import jax.numpy as jnp
import numpy as np

from dst import sched
from dst.core import INJECTED, Injected, InjectedInterrupt, Violation
from dst.model import nnx

KEYS = ["a", "b", "c", "d", "x_1", "_u"]
NOT_KEYS = ["zz", "apply", "_module__state", "get_state", "__init__", 0]


class Plain(nnx.Module):
    """No context, one result."""
    ctx = False

    def __init__(self, k, counts):
        self.k = k
        if counts:
            self.calls = nnx.BatchStat(np.float32(0))

    def count(self):
        if "calls" in vars(self):
            self.calls = self.calls + 1

    def __call__(self, x, y=0.0):
        self.count()
        return x * 2 + y + self.k


class Asks(Plain):
    """Takes the context if there is one."""
    ctx = True

    def __call__(self, x, y=0.0, *, ctx=None):
        self.count()
        return x + y + (tag(ctx) if ctx is not None else 0) + self.k


class Positional(Plain):
    ctx = True

    def __call__(self, x, ctx=None, y=0.0):
        self.count()
        return x - y + (tag(ctx) if ctx is not None else 0)


class Splits(Plain):
    """A tuple: the next element takes two arguments."""

    def __call__(self, x, y=0.0):
        self.count()
        return x + self.k, y + 1


class Names(Plain):
    """A dict: the next element takes keywords."""

    def __call__(self, x, y=0.0):
        self.count()
        return {"y": x, "x": y + self.k}


class Name(Plain):
    """A dict without all the keywords the element itself was called with."""

    def __call__(self, x, y=0.0):
        self.count()
        return {"x": x + y + self.k}


class Any(Plain):
    """Takes whatever keywords there are; a context is not for it."""

    def __call__(self, *args, **kw):
        self.count()
        if "ctx" in kw:
            raise Violation("a context was given to an element that has no such argument", "")
        return args[0] if args else kw["x"] - kw.get("y", 0)


STAGES = [Plain, Asks, Positional, Splits, Names, Name, Any]


def tag(ctx):
    return 8.0 if ctx.get_flag("big") else 4.0


def keeps(k):
    """An element that returns the same dict every time."""
    kept = {}

    def keep(x, y=0.0):
        kept["x"] = x + k
        kept["y"] = y
        return kept

    keep.kept = kept
    keep.ctx = False
    return keep


def fails(actor, k):
    """An element that raises when the thread armed it."""
    def fail(x, y=0.0, ctx=None):
        if actor.armed:
            e, actor.armed = actor.armed, None
            actor.r.fault(f"element raises {e.__name__}")
            raise e("element")
        return x + y * k

    fail.ctx = True
    return fail


def lengthen(x, y=0.0):
    return x, y, 1.0


def third(x, y, z):
    return x + y + z


lengthen.ctx = third.ctx = False


class Refused(Exception):
    pass


# ------------------------------------------------------------------ reference
def ref_stage(e, args, kw, counts):
    """What element e returns, computed here."""
    if not isinstance(e, Plain):
        return e(*args, **kw)
    counts[e] = counts.get(e, 0) + 1
    ctx = kw.pop("ctx", None)
    t = 0 if ctx is None else tag(ctx)
    k = e.k
    if isinstance(e, Any):
        return args[0] if args else kw["x"] - kw.get("y", 0)
    names = ["x", "ctx", "y"] if isinstance(e, Positional) else ["x", "y"]
    given = dict(zip(names, args), **kw)
    if len(args) > len(names) or set(given) - {"x", "y", "ctx"} or "x" not in given:
        raise Refused("arguments")
    x, y = given["x"], given.get("y", 0.0)
    if isinstance(e, Positional):
        if "ctx" in given and ctx is None:
            raise Refused("a value given as context")
        return x - y + t
    if isinstance(e, Asks):
        return x + y + t + k
    if isinstance(e, Splits):
        return x + k, y + 1
    if isinstance(e, Names):
        return {"y": x, "x": y + k}
    if isinstance(e, Name):
        return {"x": x + y + k}
    return x * 2 + y + k


def ref_call(elements, args, kw, ctx, counts):
    out = None
    for i, e in enumerate(elements):
        if i:
            args, kw = ((out, {}) if isinstance(out, tuple) else
                        ((), dict(out)) if isinstance(out, dict) else ((out,), {}))
        if not callable(e):
            raise Refused("not callable")
        kw = dict(kw)
        if ctx is not None and e.ctx:
            if isinstance(e, Positional) and len(args) > 1:
                raise Refused("the context is given twice")
            kw["ctx"] = ctx
        out = ref_stage(e, args, kw, counts)
    return dict(out) if isinstance(out, dict) else out


def same(a, b):
    if isinstance(b, tuple):
        return isinstance(a, tuple) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, dict):
        return isinstance(a, dict) and sorted(a) == sorted(b) and all(same(a[k], b[k]) for k in b)
    if b is None or isinstance(b, (str, bool)) or callable(b) or isinstance(b, nnx.Module):
        return a is b or not callable(b) and a == b
    if callable(a) or isinstance(a, (tuple, dict, nnx.Module, nnx.Container)) or a is None:
        return False
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool((a == b).all())


class Box:
    """A Dict and its reference: {key: (kind, value)}."""

    def __init__(self, real, ref):
        self.real, self.ref = real, ref


class Line:
    """A Sequence and its reference."""

    def __init__(self, real, elements):
        self.real, self.elements = real, elements
        self.counts = {}


class Actor:
    def __init__(self, r, name, shared):
        self.r, self.name, self.shared = r, name, shared
        self.boxes, self.lines = [], []
        self.armed = None
        self.n = 0
        self.done = 0
        self.calls = 0

    def ev(self, *what):
        self.r.ev(f"[{self.name}]", *what)

    def check(self, ok, what, msg):
        self.r.check(ok, what, msg if callable(msg) else lambda: f"{self.name}: {msg}")

    # ---- Dict
    def value(self):
        """(kind, what is stored, what reads back)"""
        r = self.r
        self.n += 1
        k = r.weighted([("static", 3), ("array", 2), ("param", 4), ("stat", 2), ("module", 2), ("fn", 1)])
        v = np.float32(self.n)
        if k == "static":
            s = r.pick([self.n, f"s{self.n}", None, (1, self.n)])
            return k, s, s
        if k == "array":
            return k, jnp.asarray(v), v
        if k == "param":
            return k, nnx.Param(v), v
        if k == "stat":
            return k, nnx.BatchStat(v), v
        if k == "module":
            m = Plain(1.0, False)
            return k, m, m
        return k, lengthen, lengthen

    def new_box(self):
        r = self.r
        items, ref = [], {}
        for _ in range(r.draw(4)):
            key = r.pick(KEYS)
            kind, stored, reads = self.value()
            items.append((key, stored))
            if key in ref:
                items = [(k, v) for k, v in items[:-1] if k != key] + items[-1:]
            ref[key] = (kind, reads)
        how = r.draw(4)
        self.ev("new Dict", sorted(ref), how)
        if r.chance(120):
            def broken():
                yield from items
                raise Injected("iterable")

            try:
                nnx.Dict(broken())
            except Injected:
                r.fault("iterable of a Dict fails")
            else:
                raise Violation("failure of an iterable was swallowed", "Dict")
        if how == 0:
            real = nnx.Dict(items)
        elif how == 1:
            real = nnx.Dict(dict(items))
        elif how == 2:
            real = nnx.Dict(**dict(items))
        else:
            h = len(items) // 2
            real = nnx.Dict(items[:h], **dict(items[h:]))
        self.boxes.append(Box(real, ref))
        self.look(self.boxes[-1])

    def box(self):
        if not self.boxes:
            self.new_box()
        return self.r.pick(self.boxes)

    def assign(self, ref, key, kind, reads):
        """A value assigned to a variable stays in that variable."""
        old = ref.get(key)
        if old is not None and old[0] in ("param", "stat"):
            if kind in ("param", "stat") and kind != old[0]:
                raise Refused("another kind of variable")
            kind = old[0]
        ref[key] = (kind, reads)

    def edit(self):
        r = self.r
        b = self.box()
        key = r.pick(KEYS)
        k = r.weighted([("item", 5), ("attr", 3), ("del", 3), ("refused", 2)])
        self.ev("edit", k, key)
        if k == "del":
            if key in b.ref:
                delattr(b.real, key)
                del b.ref[key]
        elif k == "refused":
            before = dict(b.ref)

            def inside(x):
                try:
                    if r.chance(500):
                        b.real[key] = x
                    else:
                        delattr(b.real, key)
                except nnx.TraceContextError:
                    r.fault("edit refused inside a trace")
                except AttributeError:
                    if key in before:
                        raise
                else:
                    raise Violation("a Dict of an outer level was edited", key)
                return x

            jax.make_jaxpr(inside)(1.0)
        else:
            kind, stored, reads = self.value()
            try:
                self.assign(b.ref, key, kind, reads)
                refused = None
            except Refused as e:
                refused = e
            if kind == "module" and b.ref.get(key, ("",))[0] in ("param", "stat"):
                return self.drop(b, key)  # a module inside a variable: not looked into here
            ok, got = r.attempt((lambda: b.real.__setitem__(key, stored)) if k == "item" else
                                (lambda: setattr(b.real, key, stored)))
            self.check(ok == (refused is None), "assignment", f"{key}: {refused} / {got!r}")
        self.look(b)

    def drop(self, b, key):
        delattr(b.real, key)
        del b.ref[key]

    def look(self, b):
        """Everything the mapping says about itself."""
        r, d, ref = self.r, b.real, b.ref
        self.done += 1
        keys = sorted(ref)
        self.check(sorted(d) == keys, "keys of a Dict", lambda: f"{sorted(d)} instead of {keys}")
        self.check(len(d) == len(keys) and bool(d) == bool(keys), "length of a Dict", f"{len(d)} of {keys}")
        for k in KEYS:
            self.check((k in d) == (k in ref), "'in' of a Dict", f"{k}: {k in d}")
        for k in ref:
            self.check(same(d[k], ref[k][1]) and same(d.get(k), ref[k][1]), "value of a Dict",
                       lambda: f"{k}: {d[k]!r} instead of {ref[k]}")
        what = r.draw(4)
        if what == 0:
            k = r.pick(NOT_KEYS)
            self.check(k not in d and d.get(k, "none") == "none", "a key that is none", f"{k}")
            try:
                d[k]
            except KeyError:
                pass
            else:
                raise Violation("a key that is none", f"{k} has a value")
        elif what == 1:
            got = dict(d.items())
            self.check(sorted(got) == keys and all(same(got[k], ref[k][1]) for k in keys), "items of a Dict",
                       lambda: f"{got}")
            got = list(d.values())
            self.check(len(got) == len(keys) and sorted(d.keys()) == keys, "values of a Dict", lambda: f"{got}")
        elif what == 2:
            got = dict(d)
            self.check(sorted(got) == keys and all(same(got[k], ref[k][1]) for k in keys), "dict of a Dict",
                       lambda: f"{got}")
        elif all(k == "static" for k, _ in ref.values()):
            plain = {k: v for k, (_, v) in ref.items()}
            self.check(d == plain and not d == {**plain, "zz": 1}, "equality of a Dict", lambda: f"{plain}")

    def through(self):
        """The same elements after a trip of the whole container."""
        r = self.r
        b = self.box()
        how = r.weighted([("clone", 2), ("merge", 2), ("filters", 2), ("deepcopy", 1), ("apply", 2), ("jit", 1),
                          ("state", 3), ("pop", 2), ("nested", 2)])
        self.ev("through", how)
        if how == "jit" and any(k in ("param", "stat") and not isinstance(v, np.float32) for k, v in b.ref.values()):
            how = "clone"
        v = np.float32(100 + self.n)
        if how == "state":
            key = r.pick(KEYS)
            if b.ref.get(key, ("param",))[0] in ("module",):
                return
            try:
                self.assign(b.ref, key, "param", v)
            except Refused:
                return
            b.real.update_state(nnx.State({key: nnx.Param(v)}))
            return self.look(b)
        if how == "pop":
            got = b.real.pop_state(nnx.BatchStat)
            want = [k for k, (kind, _) in sorted(b.ref.items()) if kind == "stat"]
            self.check(list(got) == want, "popped elements", lambda: f"{list(got)} instead of {want}")
            for k in want:
                del b.ref[k]
            return self.look(b)
        key = r.pick(KEYS)
        edits = how in ("apply", "jit") and b.ref.get(key, ("param",))[0] in ("param", "stat")
        if how == "clone":
            new = b.real.clone()
        elif how == "merge":
            new = b.real.partition().merge()
        elif how == "filters":
            new = b.real.partition(nnx.Param, ...).merge()
        elif how == "deepcopy":
            new = copy.deepcopy(b.real)
        elif how == "apply":
            _, new = b.real.apply.__setitem__(key, v) if edits else b.real.apply.__len__()
        elif how == "nested":
            new = nnx.Dict(inner=b.real, other=1).clone()["inner"]
        else:
            def f(d, x):
                if edits:
                    d[key] = x
                return x * len(d)

            new = b.real.clone()
            n = nnx.jit(f)(new, v)
            self.check(int(n) == int(v) * len(set(b.ref) | ({key} if edits else set())), "length inside nnx.jit", f"{n}")
        ref = dict(b.ref)
        if edits:
            self.assign(ref, key, "array" if key not in ref else ref[key][0], v)
        # modules are rebuilt
        for k, (kind, value) in ref.items():
            if kind == "module":
                m = vars(new).get(k)
                self.check(type(m) is type(value) and m is not value, "element module", lambda: f"{k}: {m!r}")
                ref[k] = (kind, m)
        self.look(b)
        nb = Box(new, ref)
        self.look(nb)
        if r.chance(500) and len(self.boxes) < 6:
            self.boxes.append(nb)

    # ---- Sequence
    def elements(self, counts=True):
        r = self.r
        out = []
        for _ in range(r.weighted([(0, 1), (1, 4), (2, 6), (3, 6), (4, 4), (11, 1)])):
            k = r.weighted([("stage", 10), ("keeps", 2), ("fails", 3), ("third", 1), ("again", 1), ("static", 1)])
            if not counts and k != "third":
                k = "stage"
            if k == "stage":
                out.append(r.pick(STAGES)(float(r.draw(4)), counts and r.chance(500)))
            elif k == "keeps":
                out.append(keeps(1.0))
            elif k == "fails":
                out.append(fails(self, 2.0))
            elif k == "third":
                out += [lengthen, third]
            elif k == "again" and out:
                out.append(r.pick(out))
            elif k == "static" and r.chance(400):
                out.append("no function")
        return out

    def new_line(self, counts=True):
        r = self.r
        es = self.elements(counts)
        self.ev("new Sequence", len(es), [type(e).__name__ for e in es])
        how = r.draw(3)
        real = nnx.Sequence(es if how == 0 else tuple(es) if how == 1 else iter(es))
        line = Line(real, es)
        self.look_line(line)
        return line

    def line(self):
        if not self.lines:
            self.lines.append(self.new_line())
        return self.r.pick(self.lines)

    def look_line(self, line):
        s, es = line.real, line.elements
        self.done += 1
        self.check(len(s) == len(es), "length of a Sequence", f"{len(s)} instead of {len(es)}")
        got = list(s)
        self.check(len(got) == len(es) and all(a is b or a == b for a, b in zip(got, es)), "elements of a Sequence",
                   lambda: f"{got} instead of {es}")
        for i in range(-len(es), len(es)):
            self.check(s[i] is es[i] or s[i] == es[i], "index of a Sequence", f"{i}")
        for i in (len(es), len(es) + 3, -len(es) - 1):
            try:
                s[i]
            except IndexError:
                pass
            else:
                raise Violation("an index out of range was accepted", f"{i} of {len(es)}")
        for e in es:
            if isinstance(e, Plain) and "calls" in vars(e):
                want = line.counts.get(e, 0)
                self.check(float(e.calls) == want, "calls of an element", f"{float(e.calls)} instead of {want}")

    def edit_line(self):
        r = self.r
        line = self.line()
        k = r.weighted([("replace", 3), ("clone", 3), ("deepcopy", 1), ("filters", 2)])
        self.ev("edit Sequence", k)
        if k == "replace":
            if not line.elements:
                return
            i = r.draw(len(line.elements))
            e = r.pick(STAGES)(float(r.draw(4)), r.chance(500))
            setattr(line.real, str(i), e)
            line.elements = [*line.elements[:i], e, *line.elements[i + 1:]]
            return self.look_line(line)
        if k == "clone":
            real = line.real.clone()
        elif k == "deepcopy":
            if any(not isinstance(e, Plain) for e in line.elements):
                return
            real = copy.deepcopy(line.real)
        else:
            real = line.real.partition(nnx.BatchStat, ...).merge()
        new = self.rebuilt(line, real)
        if len(self.lines) < 5:
            self.lines.append(new)
        self.look_line(line)
        self.look_line(new)

    def rebuilt(self, line, real):
        """The reference of a Sequence whose modules were rebuilt."""
        es, counts, made = [], {}, {}
        for i, e in enumerate(line.elements):
            if not isinstance(e, Plain):
                es.append(e)
                continue
            m = vars(real).get(str(i))
            self.check(type(m) is type(e) and m is not e and m.k == e.k and made.setdefault(id(e), m) is m,
                       "element module", lambda: f"{i}: {m!r}")
            es.append(m)
            counts[m] = line.counts.get(e, 0)
        new = Line(real, es)
        new.counts = counts
        return new

    def arguments(self):
        r = self.r
        x, y = np.float32(1 + r.draw(8)), np.float32(r.draw(3))
        args, kw = r.pick([((x,), {}), ((x, y), {}), ((), {"x": x}), ((x,), {"y": y}), ((), {"x": x, "y": y})])
        ctx = nnx.context(0, flags={"big": r.chance(500)}) if r.chance(600) else None
        return args, kw, ctx

    def call(self):
        r = self.r
        if self.shared and r.chance(400):
            line = self.shared[r.draw(len(self.shared))]
        else:
            line = self.line()
        args, kw, ctx = self.arguments()
        counts = dict(line.counts)
        mine = line in self.lines
        arm = r.pick([Injected, InjectedInterrupt]) if r.chance(250) else None
        self.ev("call", "own" if mine else "shared", len(args), sorted(kw), ctx is not None)
        kept = [e for e in line.elements if hasattr(e, "kept")]
        self.calls += 1
        refused = want = None
        self.armed = arm
        level = r.faults.copy() if hasattr(r, "faults") else None
        try:
            want = ref_call(line.elements, args, kw, ctx, counts)
        except (Refused, *INJECTED) as e:
            refused = e
        except (TypeError, KeyError) as e:
            refused = Refused(str(e))
        want = copy.copy(want) if isinstance(want, dict) else want
        for e in kept:
            e.kept.clear()
        self.armed = arm
        given = dict(kw)
        extra = {} if ctx is None else {"ctx": ctx}
        jit = mine and refused is None and arm is None and not kept and r.chance(60) and line.elements
        try:
            if jit:
                def f(s, *args, ctx=None, **kw):
                    return s(*args, **({} if ctx is None else {"ctx": ctx}), **kw)

                self.ev("in nnx.jit")
                if ctx is None:
                    got = nnx.jit(lambda s, a, k: s(*a, **k))(line.real, args, kw)
                else:
                    # the context is a fork, with the same flags
                    got = nnx.jit(lambda s, a, k, *, ctx: s(*a, ctx=ctx, **k))(line.real, args, kw, ctx=ctx)
            else:
                got = line.real(*args, **kw, **extra)
        except (*INJECTED, TypeError, KeyError, AttributeError) as e:
            if refused is None or isinstance(refused, Refused) == isinstance(e, INJECTED):
                raise Violation("call of a Sequence", f"{self.name}: {type(e).__name__}: {e}, expected {refused!r}") from e
        else:
            self.check(refused is None, "call of a Sequence", f"returned {got!r} although {refused!r}")
            self.check(same(got, want), "result of a Sequence", f"{got!r} instead of {want!r}")
        self.armed = None
        for e in kept:
            self.check(set(e.kept) <= {"x", "y"}, "a dict that an element returned was changed", f"{sorted(e.kept)}")
        self.check(kw == given, "keywords of the caller changed", f"{kw}")
        if mine:
            # an element that is refused its arguments does not run, the ones before it do
            line.counts = counts
            if refused is not None:
                self.recount(line)
            self.look_line(line)

    def recount(self, line):
        for e in line.elements:
            if isinstance(e, Plain) and "calls" in vars(e):
                got = float(e.calls)
                lim = line.counts.get(e, 0)
                self.check(lim - 1 <= got <= lim, "calls of an element", f"{got} after a failing call, at most {lim}")
                line.counts[e] = got

    def main(self, n):
        r = self.r
        for _ in range(n):
            r.step()
            k = r.weighted([("edit", 5), ("through", 4), ("call", 7), ("edit_line", 3), ("new_box", 2), ("grow", 1)])
            if k == "grow":
                if len(self.lines) < 5:
                    self.lines.append(self.new_line())
            elif k == "new_box":
                if len(self.boxes) < 6:
                    self.new_box()
            else:
                getattr(self, k)()
        for b in self.boxes:
            self.look(b)
        for line in self.lines:
            self.look_line(line)


def run(r):
    first = Actor(r, "main", [])
    shared = [first.new_line(counts=False) for _ in range(1 + r.draw(2))]
    n = 1 if r.chance(300) else 2 + r.draw(2)
    actors = [Actor(r.sub(f"t{i}"), f"t{i}", shared) for i in range(n)]
    if n == 1:
        r.ran("t0")
        actors[0].main(6 + r.draw(14))
    else:
        sched.threads(r, [(a.name, lambda a=a: a.main(4 + a.r.draw(8))) for a in actors])
    for line in shared:
        first.look_line(line)
    r.nontrivial = sum(a.done for a in actors) >= 8 and sum(a.calls for a in actors) >= 1
    r.state(n, tuple(sorted((len(a.boxes), len(a.lines), a.calls) for a in actors)))
