"""C13: histories of cooperating tasks refine a plain object graph.

Several tasks (generators) edit, snapshot, update, pop, merge and clone a shared
population of module graphs. The tape decides which task runs next, its operation
and which operations are made to fail. After every step the touched objects are
compared with the reference, and regularly every live module and snapshot is.
"""
import typing

import jax.numpy as jnp
import numpy as np

from dst import model as M
from dst.core import HarnessError, Injected, Violation
from dst.model import RMod, RVar, Refused, nnx

DTYPES = [np.int32, np.int32, np.float16, jnp.bfloat16, np.complex64, np.int64, np.float64, np.float32]


class Cell(nnx.Module):
    def __init__(self):
        pass

    def __getitem__(self, name):
        return vars(self)[name]

    def bump(self, name, value, fail=None):
        setattr(self, name, value)
        if fail:
            raise Injected("in method")
        return value


class Cell2(Cell):
    pass


@nnx.dataclass
class Record(Cell):
    """Fields become variables when the constructor is done."""

    a: typing.Any = nnx.param_field()
    b: typing.Any = nnx.var_field(nnx.BatchStat)
    c: typing.Any = nnx.node_field()
    d: typing.Any = nnx.static_field()
    e: typing.Any


FIELDS = {"a": "Param", "b": "BatchStat", "c": "Node", "d": "Static"}


class World:
    def __init__(self, run):
        self.run = run
        self.mods = []   # [real, ref]
        self.states = []  # [real, ref]
        self.pures = []  # [real, skel, [ref states], is_tuple]
        self.counter = 0
        self.names = M.names(run)

    # ---- values
    def fresh(self):
        self.counter += 1
        r = self.run
        v = M.refarr(self.counter, r.pick([(), (), (2,)]))
        if r.chance(200):
            v = np.full(r.pick([(), (2,), (1,), (2, 1), (1, 3)]), self.counter, r.pick(DTYPES))
        return v

    def value(self):
        """What a variable holds: an array, or arrays in containers."""
        r = self.run
        if r.chance(900):
            return self.fresh()
        c = r.draw(5)
        if c == 0:
            return {"p": self.fresh(), "q": (self.fresh(), 1.5)}
        if c == 1:
            return (self.fresh(), {"k": self.fresh()})
        return r.pick([None, 2.5, (), {}]) if c == 2 else (self.fresh(),)

    def gen_leaf(self):
        r = self.run
        c = r.draw(8)
        if c <= 1:
            return self.fresh()
        kind = r.pick(["Param", "BatchStat", "Cache", "Intermediate", "Tag", "SubParam", "Node", "Static"])
        if kind == "Static":
            return RVar("Static", r.pick([1, "s", ("t", 2)]))
        meta = {}
        if kind != "Node" and r.chance(250):
            meta["sharding"] = r.pick([("x",), (None, "y")])
        if r.chance(150):
            meta["note"] = r.pick(["n1", "n2"])
        return RVar(kind, self.value(), meta)

    def gen_attr(self):
        r = self.run
        if r.chance(150):
            return r.pick([-7, "static", ("tup", 1), None, True])
        return self.gen_leaf()

    def pick_mod(self):
        return self.mods[self.run.draw(len(self.mods))]

    def pick_inner(self):
        """A module reachable from some handle, with its reference."""
        real, ref = self.pick_mod()
        ms = M.modules(ref)
        k = self.run.draw(len(ms))
        if k == 0:
            return real, ref
        return find_real(real, ref, ms[k]), ms[k]

    # ---- checks
    def check_mod(self, i, what):
        real, ref = self.mods[i]
        d = M.graph_diff(real, ref)
        if d:
            raise Violation(f"graph:{what}", f"module {i} after {what}: {d}")
        st = self.run.must("get_state", real.get_state)
        d = M.state_diff(st, M.state_of(ref))
        if d:
            raise Violation(f"get_state:{what}", f"module {i} after {what}: {d}")

    def check_all(self, what):
        for i in range(len(self.mods)):
            self.check_mod(i, what)
        for i, (real, ref) in enumerate(self.states):
            d = M.state_diff(real, ref)
            if d:
                raise Violation(f"snapshot:{what}", f"state {i} changed after {what}: {d}")
        for i, (real, skel, refs, is_tuple) in enumerate(self.pures):
            self.check_pure(real, skel, refs, is_tuple, what)

    def check_pure(self, real, skel, refs, is_tuple, what):
        states = real.states
        if is_tuple != isinstance(states, tuple) or isinstance(states, nnx.State) == is_tuple:
            raise Violation(f"pure:{what}", f"states is a {type(states).__name__}")
        states = states if is_tuple else (states,)
        if len(states) != len(refs):
            raise Violation(f"pure:{what}", f"{len(states)} states instead of {len(refs)}")
        for s, r in zip(states, refs):
            d = M.state_diff(s, r)
            if d:
                raise Violation(f"pure:{what}", f"pure module after {what}: {d}")

    def add_mod(self, real, ref):
        if len(self.mods) >= 5:
            self.mods.pop(0)
        self.mods.append([real, ref])
        return len(self.mods) - 1

    def add_state(self, real, ref):
        if len(self.states) >= 5:
            self.states.pop(0)
        self.states.append([real, ref])

    def add_pure(self, real, skel, refs, is_tuple):
        if len(self.pures) >= 4:
            self.pures.pop(0)
        self.pures.append([real, skel, refs, is_tuple])


def find_real(real, ref, target):
    """Walk real and reference in parallel to the module `target`."""
    seen = set()

    def go(m, r):
        if r is target:
            return m
        if id(r) in seen:
            return None
        seen.add(id(r))
        for n, v in sorted(r.attrs.items()):
            if isinstance(v, RMod):
                f = go(vars(m)[n], v)
                if f is not None:
                    return f
        return None

    return go(real, ref)


def expect(w, what, real_fn, ref_fn, errors=(ValueError, KeyError, TypeError, AttributeError)):
    """Run an operation on both sides: both succeed or both refuse."""
    try:
        want = ref_fn()
        refused = None
    except (Refused, Injected) as e:
        refused = e
    ok, got = w.run.attempt(real_fn)
    if refused is None and not ok:
        raise Violation(f"{what}:refused", f"{what} raised {type(got).__name__}: {got}") from got
    if refused is not None and ok:
        raise Violation(f"{what}:accepted", f"{what} succeeded although {refused}")
    if refused is not None:
        if isinstance(refused, Injected):
            if not isinstance(got, Injected):
                raise Violation(f"{what}:error", f"user exception became {type(got).__name__}: {got}") from got
        w.run.probe(f"refused {what}: {refused}")
        return False, None, None
    return True, got, want


# ------------------------------------------------------------------ operations
def op_new(w):
    cls = w.run.pick([Cell, Cell2, nnx.Dict, Record])
    ref = RMod(cls)
    if cls is Record:
        args = [w.fresh() if k != "d" else w.run.pick([1, "s"]) for k in "abcd"]
        real = Record(*[M.to_real(v) for v in args], -7)
        for k, v in zip("abcd", args):
            ref.attrs[k] = RVar(FIELDS[k], v)
        ref.attrs["e"] = -7
    else:
        real = cls()
    n = w.run.draw(4)
    for _ in range(n):
        name = w.run.pick(w.names)
        if name in ref.attrs:
            continue
        v = w.gen_attr()
        ref.attrs[name] = M.copy_leaf(v)
        setattr(real, name, M.to_real(v))
    w.add_mod(real, ref)
    return f"new {cls.__name__}"


def op_attach(w):
    """Make a module an attribute of another one (sharing, nesting, cycles)."""
    real, ref = w.pick_inner()
    creal, cref = w.pick_inner()
    name = w.run.pick(w.names)
    cur = ref.attrs.get(name)
    if isinstance(cur, RVar) or creal is None or real is None:
        return "attach skipped"
    setattr(real, name, creal)
    ref.attrs[name] = cref
    return f"attach .{name}"


def op_set(w):
    real, ref = w.pick_inner()
    name = w.run.pick(w.names)
    cur = ref.attrs.get(name)
    if isinstance(cur, RVar) and w.run.chance(350):
        # a container equal in kind and metadata is accepted as an update
        v = RVar(cur.kind, w.fresh() if cur.kind != "Static" else 9, cur.meta)
    else:
        v = w.gen_attr()
    if isinstance(cur, RVar) and not isinstance(v, RVar) and not M.is_array(v):
        v = w.fresh()
    if isinstance(cur, RVar) and cur.kind == "Static" and M.is_array(M.leaf_value(v)):
        v = 11
    rv = M.to_real(v)
    how = w.run.draw(3)
    if how == 1 and ref.cls is nnx.Dict:
        fn = lambda: real.__setitem__(name, rv)  # noqa: E731
    else:
        fn = lambda: setattr(real, name, rv)  # noqa: E731
    before = M.copy_leaf(v) if isinstance(v, RVar) else v
    expect(w, "set", fn, lambda: M.set_attr(ref, name, v))
    # the object that was passed in is not aliased: changing it later is harmless
    if isinstance(v, RVar) and w.run.chance(300):
        vars(rv)["value"] = None
    del before
    return f"set .{name} = {v if isinstance(v, RVar) else M.short(v)}"


def op_del(w):
    real, ref = w.pick_inner()
    names = sorted(ref.attrs)
    if not names:
        return "del skipped"
    name = w.run.pick(names)
    delattr(real, name)
    del ref.attrs[name]
    return f"del .{name}"


def op_sow(w):
    real, ref = w.pick_inner()
    name = w.run.pick(w.names)
    kind = w.run.pick(["Intermediate", "Cache"])
    v = w.fresh()

    def ref_sow():
        cur = ref.attrs.get(name)
        if name not in ref.attrs:
            ref.attrs[name] = RVar(kind, (v,))
            return
        if not isinstance(cur, RVar) or cur.kind != kind:
            raise Refused("sow onto something else")
        if not isinstance(cur.value, tuple):
            raise Refused("sow onto a non-tuple")
        ref.attrs[name] = RVar(kind, cur.value + (v,), cur.meta)

    expect(w, "sow", lambda: real.sow(M.KINDS[kind], name, M.to_real(v)), ref_sow)
    return f"sow .{name} {kind}"


def gen_filters(w, exhaustive=None, misplaced=False):
    fs = [M.gen_filter(w.run) for _ in range(1 + w.run.draw(3))]
    if exhaustive is None:
        exhaustive = w.run.chance(700)
    if exhaustive:
        fs.append(M.REST)
    if misplaced and w.run.chance(40):
        fs.insert(w.run.draw(len(fs) + 1), M.REST)
    return fs


def ref_partition(state, fs):
    if any(f is M.REST for f in fs[:-1]):
        raise Refused("... before other filters")
    *parts, rest = M.split(state, fs)
    if rest:
        raise Refused("non-exhaustive filters")
    return parts


def check_parts(w, what, got, want):
    if len(want) == 1:
        if not isinstance(got, nnx.State):
            raise Violation(f"{what}:shape", f"{type(got).__name__} for one filter")
        got = (got,)
    elif not isinstance(got, tuple) or len(got) != len(want):
        raise Violation(f"{what}:shape", f"{type(got).__name__} for {len(want)} filters")
    for g, r in zip(got, want):
        d = M.state_diff(g, r)
        if d:
            raise Violation(f"{what}:content", d)
        w.add_state(g, r)


def op_partition(w):
    real, ref = w.pick_mod()
    st = M.state_of(ref)
    if w.run.draw(3) == 0:
        p = w.run.must("partition", real.partition)
        w.add_pure(p, M.skeleton(ref), [st], False)
        return "partition()"
    fs = gen_filters(w, misplaced=True)
    ok, got, want = expect(w, "partition", lambda: real.partition(*[f.real for f in fs]),
                           lambda: ref_partition(st, fs))
    if ok:
        w.add_pure(got, M.skeleton(ref), want, len(want) > 1)
        w.check_pure(*w.pures[-1], "partition")
    return f"partition({fs})"


def op_filter(w):
    real, ref = w.pick_mod()
    fs = gen_filters(w)
    got = w.run.must("filter", real.filter, *[f.real for f in fs])
    check_parts(w, "filter", got, M.split(M.state_of(ref), fs)[:-1])
    return f"filter({fs})"


def failing(w, pred):
    """A filter that raises at its k-th evaluation."""
    k = w.run.draw(6)
    n = 0

    def p(path, x):
        nonlocal n
        n += 1
        if n == k + 1:
            w.run.fault("predicate raises")
            raise Injected("predicate")
        return pred(path, x)

    return p


def op_pop(w):
    real, ref = w.pick_mod()
    fs = gen_filters(w, exhaustive=w.run.chance(80))
    reals = [f.real for f in fs]
    if w.run.chance(120):
        i = w.run.draw(len(fs))
        f = fs[i]
        import nnx.partitioning as P

        bad = failing(w, P.to_predicate(f.real))
        reals[i] = bad
        ok, got = w.run.attempt(real.pop_state, *reals)
        if not ok:
            if not isinstance(got, Injected):
                raise Violation("pop:error", f"{type(got).__name__}: {got}") from got
            w.run.probe("pop aborted")
            return f"pop({fs}) aborted"
    else:
        got = w.run.must("pop", real.pop_state, *reals)
    entries = M.iter_state(ref)
    parts = [dict() for _ in fs]
    for p, m, n, v in entries:
        for i, f in enumerate(fs):
            if f.pred(p, v):
                parts[i][p] = M.copy_leaf(v)
                del m.attrs[n]
                break
    check_parts(w, "pop", got, parts)
    return f"pop({fs})"


def op_merge(w):
    if not w.pures:
        return "merge skipped"
    real, skel, refs, _ = w.run.pick(w.pures)
    how = w.run.draw(3)

    def go():
        if how == 0:
            return real.merge()
        states = real.states if isinstance(real.states, tuple) else (real.states,)
        if how == 1:
            return real.moduledef.merge(*states)
        return real.moduledef.merge(nnx.State.merge(*states))

    ok, got, want = expect(w, "merge", go, lambda: M.merge(skel, *refs))
    if ok:
        w.add_mod(got, want)
    return "merge"


def op_clone(w):
    real, ref = w.pick_inner()
    got = w.run.must("clone", real.clone)
    w.add_mod(got, M.copy_graph(ref))
    return "clone"


def conflict(ref, update):
    """Does the update put a leaf where there is a module?"""
    for p in update:
        parts = p.split("/")
        m = ref
        for i, n in enumerate(parts):
            if not isinstance(m, RMod):
                break
            v = m.attrs.get(n)
            if i == len(parts) - 1:
                if isinstance(v, RMod):
                    return True
                break
            m = v
    return False


def gen_update(w, ref):
    """A state to update `ref` with: own paths, other snapshots', or unknown ones."""
    r = w.run
    if w.states and r.chance(300):
        real, upd = r.pick(w.states)
        return real, upd, "snapshot"
    own = M.iter_state(ref)
    upd = {}
    for p, _, _, v in own:
        if r.chance(500):
            if isinstance(v, RVar):
                if r.chance(200):
                    upd[p] = w.fresh()
                elif r.chance(100):
                    upd[p] = RVar("Tag" if v.kind != "Tag" else "Cache", w.fresh())
                else:
                    upd[p] = RVar(v.kind, w.fresh(), v.meta)
            else:
                upd[p] = w.fresh()
    if r.chance(250):
        upd[r.pick(w.names)] = w.gen_leaf_node() if hasattr(w, "gen_leaf_node") else w.fresh()
    if r.chance(60):
        p = r.pick(own)[0] if own and r.chance(500) else "zz"
        upd[p + "/" + r.pick(w.names)] = w.fresh()
        r.fault("update goes through something that is no submodule")
    return M.real_state(upd), upd, "generated"


def op_update(w):
    real, ref = w.pick_mod()
    form = w.run.draw(5)
    what = "update_state"
    if form == 4:
        # from another module of the same type
        others = [(a, b) for a, b in w.mods if type(a) is type(real)]
        oreal, oref = w.run.pick(others)
        upds, rupd = [M.state_of(oref)], oreal
        label = "module"
    elif form == 3 and w.pures:
        preal, _, refs, _ = w.run.pick(w.pures)
        upds, rupd, label = refs, preal, "pure"
    elif form == 2:
        r1, u1, l1 = gen_update(w, ref)
        r2, u2, l2 = gen_update(w, ref)
        upds, rupd, label = [u1, u2], (r1, r2), f"tuple of {l1}, {l2}"
    else:
        r1, u1, label = gen_update(w, ref)
        upds, rupd = [u1], r1
    total = {}
    for u in upds:
        total.update(u)
    if conflict(ref, total):
        return "update skipped (structure conflict)"
    shadow = M.copy_graph(ref)
    intended = {}

    def ref_update():
        todo = dict(M.state_of(ref))
        todo.update(total)
        # what every addressed attribute has to become
        err = None
        for p, v in todo.items():
            *mp, n = p.split("/")
            m = M.resolve(shadow, mp)
            if m is None:
                err = Refused("unknown path")
                continue
            try:
                M.set_attr(m, n, v)
            except Refused as e:
                err = e
                continue
            intended[p] = m.attrs[n]
        if err:
            raise err

    ok, _, _ = expect(w, what, lambda: real.update_state(rupd), ref_update)
    if ok:
        apply_intended(ref, intended)
    else:
        settle(w, real, ref, intended, what)
    return f"update({label}: {sorted(total)}){'' if ok else ' refused'}"


def apply_intended(ref, intended):
    for p, v in intended.items():
        *mp, n = p.split("/")
        M.resolve(ref, mp).attrs[n] = M.copy_leaf(v)


def settle(w, real, ref, intended, what):
    """After a refused update every variable is old or as intended; adopt which."""
    for p, v in intended.items():
        *mp, n = p.split("/")
        m = M.resolve(ref, mp)
        rm = real
        for x in mp:
            rm = vars(rm)[x]
        if m is None:
            raise HarnessError(p)
        old = m.attrs.get(n)
        a = M.real_attrs(rm).get(n, w)
        if n not in m.attrs:
            if a is w:
                continue
        elif a is not w and M.leaf_diff(a, old) is None:
            continue
        d = "missing" if a is w else M.leaf_diff(a, v)
        if d:
            raise Violation(f"{what}:torn", f"{p} is neither old nor new after a refused update: {d}")
        m.attrs[n] = M.copy_leaf(v)


def op_mutable(w):
    real, ref = w.pick_mod()
    d = w.run.must("mutable_state_dict", real.mutable_state_dict)
    entries = M.iter_state(ref)
    if sorted(d) != sorted(p for p, *_ in entries):
        raise Violation("mutable_state_dict:paths", f"{sorted(d)} instead of {sorted(p for p, *_ in entries)}")
    if not entries:
        return "mutable skipped"
    p, m, n, v = entries[w.run.draw(len(entries))]
    diff = M.value_diff(d[p].value, M.leaf_value(v))
    if diff:
        raise Violation("mutable_state_dict:value", f"{p}: {diff}")
    want = v.meta.get("sharding") if isinstance(v, RVar) else None
    got = w.run.must("mutable_state_dict:sharding", lambda: d[p].sharding)
    if got != want:
        raise Violation("mutable_state_dict:sharding", f"{p}: {got} instead of {want}")
    nv = w.fresh()
    d[p].value = M.to_real(nv)
    M.set_attr(m, n, nv)
    diff = M.value_diff(d[p].value, nv)
    if diff:
        raise Violation("mutable_state_dict:value", f"{p}: {diff}")
    return f"mutable[{p}]"


def op_pure(w):
    """Operations of a pure module: they build new ones and change nothing."""
    if not w.pures:
        return "pure skipped"
    real, skel, refs, is_tuple = w.run.pick(w.pures)
    total = {}
    for r in refs:
        total.update(r)
    total = {k: v for k, v in total.items()}
    c = w.run.draw(6)
    if c == 0:
        d = M.state_diff(w.run.must("pure.get_state", real.get_state), total)
        if d:
            raise Violation("pure.get_state", d)
        return "pure.get_state"
    if c == 1:
        fs = gen_filters(w, misplaced=True)
        ok, got, want = expect(w, "pure.partition", lambda: real.partition(*[f.real for f in fs]),
                               lambda: ref_partition(total, fs))
        if ok:
            w.add_pure(got, skel, want, len(want) > 1)
            w.check_pure(*w.pures[-1], "pure.partition")
        return f"pure.partition({fs})"
    if c == 2:
        fs = gen_filters(w)
        got = w.run.must("pure.filter", real.filter, *[f.real for f in fs])
        check_parts(w, "pure.filter", got, M.split(total, fs)[:-1])
        return f"pure.filter({fs})"
    if c == 3:
        fs = gen_filters(w, exhaustive=False)
        got = w.run.must("pure.pop_state", real.pop_state, *[f.real for f in fs])
        if not isinstance(got, tuple) or len(got) != 2:
            raise Violation("pure.pop_state:shape", desc_type(got))
        *parts, rest = M.split(total, fs)
        check_parts(w, "pure.pop_state", got[0], parts)
        w.add_pure(got[1], skel, [rest], False)
        w.check_pure(*w.pures[-1], "pure.pop_state")
        return f"pure.pop({fs})"
    if c == 4:
        if not w.states:
            return "pure.update skipped"
        k = w.run.draw(4)
        if k == 0:
            sreal, sref = w.run.pick(w.states)
            upd = sref
        elif k == 3:
            sreal, _, srefs, _ = w.run.pick(w.pures)
            upd = {}
            for s in srefs:
                upd.update(s)
        elif k == 1:
            s1, r1 = w.run.pick(w.states)
            s2, r2 = w.run.pick(w.states)
            sreal, upd = (s1, s2), {**r1, **r2}
        else:
            sreal, sref = w.pick_mod()
            upd = M.state_of(sref)
        got = w.run.must("pure.update_state", real.update_state, sreal)
        w.add_pure(got, skel, [{**total, **upd}], False)
        w.check_pure(*w.pures[-1], "pure.update_state")
        return "pure.update_state"
    # run a method on a temporary module: neither receiver nor result is aliased
    name = w.run.pick(w.names)
    if not issubclass(skel.cls, Cell):
        return "pure.apply skipped"
    try:
        path, target = gen_path(w, M.merge(skel, *refs))
    except Refused:  # a state that does not fit: the call below has to refuse it too
        path, target = [], skel
    v = w.fresh()
    fail = w.run.chance(250)

    def ref_call():
        m = M.merge(skel, *refs)
        M.set_attr(M.resolve(m, path), name, v)
        if fail:
            w.run.fault("method raises")
            raise Injected("in method")
        return m

    cur = target.attrs.get(name)
    if isinstance(cur, RVar) and cur.kind == "Static":
        return "pure.apply skipped"
    if w.run.draw(2):
        ok, got, want = expect(w, "pure.apply", lambda: along(w, real.apply, path).bump(name, M.to_real(v), fail), ref_call)
        if ok:
            out, p2 = got
            d = M.value_diff(out, v)
            if d:
                raise Violation("pure.apply:value", d)
            w.add_pure(p2, M.skeleton(want), [M.state_of(want)], False)
            w.check_pure(*w.pures[-1], "pure.apply")
        return "pure.apply"
    ok, got, want = expect(w, "pure.call", lambda: along(w, real.call, path).bump(name, M.to_real(v), fail), ref_call)
    if ok:
        d = M.value_diff(got, v)
        if d:
            raise Violation("pure.call:value", d)
    return "pure.call"


def gen_path(w, root):
    """Names that lead from a module to the submodule whose method is called."""
    path = []
    while len(path) < 3:
        subs = [n for n, v in sorted(root.attrs.items()) if isinstance(v, RMod) and issubclass(v.cls, Cell)]
        if not subs or w.run.chance(500):
            break
        path.append(w.run.pick(subs))
        root = root.attrs[path[-1]]
    return path, root


def along(w, proxy, path):
    for n in path:
        proxy = proxy[n] if w.run.draw(2) else getattr(proxy, n)
    return proxy


def desc_type(x):
    return type(x).__name__


def op_apply(w):
    real, ref = w.pick_mod()
    name = w.run.pick(w.names)
    if not issubclass(ref.cls, Cell):
        return "apply skipped"
    path, target = gen_path(w, ref)
    v = w.fresh()
    fail = w.run.chance(300)

    def ref_apply():
        m = M.copy_graph(ref)
        M.set_attr(M.resolve(m, path), name, v)
        if fail:
            w.run.fault("method raises")
            raise Injected("in method")
        return m

    cur = target.attrs.get(name)
    if isinstance(cur, RVar) and cur.kind == "Static":
        return "apply skipped"
    ok, got, want = expect(w, "apply", lambda: along(w, real.apply, path).bump(name, M.to_real(v), fail), ref_apply)
    if ok:
        out, m2 = got
        d = M.value_diff(out, v)
        if d:
            raise Violation("apply:value", d)
        w.add_mod(m2, want)
    return "apply"


def op_state(w):
    """Algebra on snapshots; every input stays as it was."""
    import jax

    if not w.states:
        return "state skipped"
    (a, ra), (b, rb) = w.run.pick(w.states), w.run.pick(w.states)
    c = w.run.draw(8)
    if c == 0:
        got, want = a | b, {**ra, **rb}
    elif c == 1:
        got, want = a - b, {k: v for k, v in ra.items() if k not in rb}
    elif c == 2:
        d, rd = w.run.pick(w.states)
        got, want = nnx.State.merge(a, b, d), {**ra, **rb, **rd}
    elif c == 3:
        fs = gen_filters(w, misplaced=True)
        ok, got, want = expect(w, "state.partition", lambda: a.partition(*[f.real for f in fs]),
                               lambda: ref_partition(ra, fs))
        if ok:
            check_parts(w, "state.partition", got, want)
        return f"state.partition({fs})"
    elif c == 4:
        fs = gen_filters(w)
        check_parts(w, "state.filter", a.filter(*[f.real for f in fs]), M.split(ra, fs)[:-1])
        return f"state.filter({fs})"
    elif c == 5:
        leaves, tree = jax.tree_util.tree_flatten(a)
        got, want = jax.tree_util.tree_unflatten(tree, leaves), ra
    elif c == 6:
        items = list(a.items())
        k = w.run.draw(len(items) + 1)
        items = items[k:] + items[:k]
        if w.run.draw(2):
            # the caller goes on with its own dict: the snapshot is not that dict
            mine = dict(sorted(items) if w.run.draw(2) else items)
            got = nnx.State(mine)
            for p in list(mine)[:2]:
                mine[p] = 0
            mine[("zz", "later")] = 1
            if w.run.draw(2):
                mine.clear()
        else:
            got = nnx.State(iter(items))
        want = ra
    else:
        want, out = {}, {}
        for k in ra:
            if k not in a or len(a) != len(ra):
                raise Violation("state:mapping", k)
            out[k] = a[k]
        got, want = nnx.State(out), ra
    d = M.state_diff(got, want)
    if d:
        raise Violation(f"state.op{c}", d)
    w.add_state(got, dict(want))
    return f"state.op{c}"


def op_tree(w):
    """A pure module survives being flattened and rebuilt."""
    import jax

    if not w.pures:
        return "tree skipped"
    real, skel, refs, is_tuple = w.run.pick(w.pures)
    leaves, tree = jax.tree_util.tree_flatten(real)
    got = jax.tree_util.tree_unflatten(tree, leaves)
    w.add_pure(got, skel, refs, is_tuple)
    w.check_pure(*w.pures[-1], "tree round trip")
    return "tree"


def op_foreach(w):
    real, ref = w.pick_mod()
    seen = []
    cls = w.run.pick([nnx.Module, Cell, Cell2])
    real.for_each(cls, seen.append)
    want = [m for m in M.modules(ref) if issubclass(m.cls, cls)]
    if len(seen) != len(want) or len({id(x) for x in seen}) != len(seen):
        raise Violation("for_each", f"visited {len(seen)} instead of {len(want)} modules")
    return f"for_each {cls.__name__}"


def op_update_conflict_free_leaf(w):  # kept simple: assign through an attribute path
    real, ref = w.pick_mod()
    entries = M.iter_state(ref)
    if not entries:
        return "path skipped"
    p, m, n, v = entries[w.run.draw(len(entries))]
    nv = w.fresh()
    *mp, name = p.split("/")
    obj = real
    for x in mp:
        obj = getattr(obj, x)
    setattr(obj, name, M.to_real(nv))
    M.set_attr(m, n, nv)
    return f"path {p}"


TASKS = {
    "editor": [(op_set, 6), (op_attach, 3), (op_del, 2), (op_new, 2), (op_mutable, 1)],
    "trainer": [(op_partition, 2), (op_update, 6), (op_update_conflict_free_leaf, 2), (op_filter, 2)],
    "checkpointer": [(op_partition, 3), (op_merge, 3), (op_clone, 2), (op_state, 4), (op_tree, 1)],
    "evaluator": [(op_pure, 6), (op_apply, 3), (op_clone, 1), (op_foreach, 1)],
    "collector": [(op_sow, 5), (op_pop, 4), (op_filter, 1)],
}


def task(w, name, n):
    ops = TASKS[name]
    for _ in range(n):
        op = w.run.weighted(ops)
        yield op


def run(r):
    w = World(r)
    op_new(w)
    op_new(w)
    names = [n for n in TASKS if n == "editor" or r.chance(700)]
    live = [(n, task(w, n, 3 + r.draw(12))) for n in names]
    every = 1 + r.draw(6)
    k = 0
    while live:
        i = r.draw(len(live))
        name, t = live[i]
        op = next(t, None)
        if op is None:
            live.pop(i)
            continue
        label = op(w)
        r.ev(name, label)
        r.ran(name)
        r.step()
        k += 1
        what = op.__name__[3:]
        if k % every == 0:
            w.check_all(what)
    w.check_all("end")
    for real, ref in w.mods:
        r.state(sorted(M.state_of(ref)), len(M.modules(ref)))
    r.nontrivial = k >= 6
