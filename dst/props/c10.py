"""C10: nested rule blocks in several threads, left normally or by faults.

Every simulated thread runs a random program of nested `logical_axis_rules` blocks,
`set_logical_axis_rules` calls, global mesh blocks, traces and lookups of every kind,
and is preempted inside nnx. A stack per thread says which rules are in force; what a
lookup has to answer under given rules is computed beforehand, with explicit rules in a
thread that never set any.
"""
import contextlib
import threading

import jax
import jax.numpy as jnp
import numpy as np
from jax.sharding import Mesh, NamedSharding, PartitionSpec

from dst import sched
from dst.core import Injected, InjectedInterrupt, Violation
from dst.model import nnx
from nnx import spmd

RULES = [
    (),
    (("a", "x"), ("b", "y")),
    (("a", "y"), ("b", "x")),
    (("a", "x"), ("b", "x"), ("c", "y")),
    [("c", "x"), ("a", ("x", "y"))],
    (("b", "x"), ("a", None)),
    [("a", None), ("b", None), ("c", "y")],
    (("c", "y"), ("c", "x"), ("b", "x")),
]
NAMES = [("a", "b"), ("b", "a"), ("a", None), (None, "c"), ("c", "b"), ("b",), ("c", "a"), (None, None), ("z", "a")]
F = spmd.RulesFallback
FALLBACKS = [F.AXIS_IS_UNSHARDED, F.RAISE_ERROR, F.NO_CONSTRAINT]

_setup = {}


def setup():
    if _setup:
        return _setup
    mesh = Mesh(np.array(jax.devices()[:4]).reshape(2, 2), ("x", "y"))
    table = {}

    def fill():
        for i, rules in enumerate(RULES):
            for names in NAMES:
                table[i, names] = tuple(spmd.logical_to_mesh_axes(names, rules))

    failed = []

    def guarded():
        try:
            fill()
        except BaseException as e:  # noqa: BLE001
            failed.append(e)

    t = threading.Thread(target=guarded)
    t.start()
    t.join(60)
    if len(table) != len(RULES) * len(NAMES):
        raise Violation("explicit-rules", f"looking up explicit rules in a new thread failed: {failed!r}")
    _setup.update(mesh=mesh, table=table)
    jax.block_until_ready(jnp.zeros((2, 2)) + 1)
    return _setup


def plain(key, shape):
    return jnp.ones(shape)


class Layer(nnx.Module):
    def __init__(self, inits):
        for i, (init, shape) in enumerate(inits):
            setattr(self, f"w{i}", nnx.Param(init(None, shape)))


def constraints(fn):
    """The specs fn imposes, in order."""
    jaxpr = jax.make_jaxpr(fn)()
    out = []

    def walk(j):
        for e in j.eqns:
            if e.primitive.name == "sharding_constraint":
                out.append(layout(e.params["sharding"], e.invars[0].aval.ndim))
            for p in e.params.values():
                if hasattr(p, "jaxpr"):
                    walk(p.jaxpr if hasattr(p.jaxpr, "eqns") else p.jaxpr.jaxpr)

    walk(jaxpr.jaxpr)
    return out


def layout(sharding, ndim):
    """Which part of an array of 4s every device holds."""
    m = sharding.devices_indices_map((4,) * ndim)
    return tuple((d.id, tuple(s.indices(4)[:2] for s in idx)) for d, idx in sorted(m.items(), key=lambda i: i[0].id))


def named(spec):
    k = ("layout", tuple(spec))
    if k not in _setup:
        _setup[k] = layout(NamedSharding(_setup["mesh"], PartitionSpec(*spec)), len(spec))
    return _setup[k]


class Actor:
    def __init__(self, r, name, layers):
        self.r, self.name = r, name
        self.layers = list(layers)
        self.inits = []
        self.rules = 0          # index into RULES: the rules in force in this thread
        self.mesh = False
        self.depth = 0
        self.left = 0
        self.lookups = 0
        self.traces = 0

    def ev(self, *what):
        self.r.ev(f"[{self.name}]", *what)

    # ---- lookups
    def want(self, names, given):
        return _setup["table"][self.rules if given is None else given, names]

    def check(self, got, want, what):
        self.lookups += 1
        self.r.check(got == want, what, lambda: f"{self.name}: got {got}, expected {want} "
                                                f"(rules in force: {RULES[self.rules]})")

    def current(self):
        self.check(spmd.get_logical_axis_rules(), RULES[self.rules], "rules in force")

    def lookup(self):
        r = self.r
        kind = r.weighted([("get", 3), ("axes", 4), ("tree", 2), ("sharding", 2), ("duplicate", 1), ("constraint", 3),
                           ("read", 4), ("create", 2)])
        given = r.draw(len(RULES)) if r.chance(250) else None
        rules = None if given is None else RULES[given]
        kw = {} if given is None and r.chance(500) else {"rules": rules}
        names = r.pick(NAMES)
        self.ev("lookup", kind, names, given)
        r.step()
        if kind == "get":
            self.current()
        elif kind == "axes":
            self.check(tuple(spmd.logical_to_mesh_axes(names, **kw)), self.want(names, given), "logical_to_mesh_axes")
        elif kind == "tree":
            n2 = r.pick(NAMES)
            got = nnx.logical_to_mesh({"p": PartitionSpec(*names), "q": [PartitionSpec(*n2)]}, **kw)
            self.check((tuple(got["p"]), tuple(got["q"][0])), (self.want(names, given), self.want(n2, given)),
                       "logical_to_mesh")
        elif kind == "sharding":
            mesh = _setup["mesh"]
            got = spmd.logical_to_mesh_sharding([PartitionSpec(*names)], mesh, **kw)[0]
            self.check(got, NamedSharding(mesh, PartitionSpec(*self.want(names, given))), "logical_to_mesh_sharding")
        elif kind == "duplicate":
            try:
                spmd.logical_to_mesh_axes(("a", "b", "a"), **kw)
            except ValueError:
                pass
            else:
                raise Violation("duplicate names accepted", self.name)
        elif kind == "constraint":
            self.constraint(names, given, kw)
        elif kind == "read":
            self.read()
        else:
            self.create(names, given)

    def expect(self, names, given, fallback, has_mesh):
        """The specs a constraint imposes, or None if it has to raise."""
        idx = self.rules if given is None else given
        rules = RULES[idx]
        if not rules:
            return []
        if fallback != F.AXIS_IS_UNSHARDED:
            mapped = {n for n, _ in rules}
            if any(n is None or n not in mapped for n in names):
                # an unnamed dimension is unmatched as well
                return None if fallback == F.RAISE_ERROR else []
        if not has_mesh:
            return []
        return [named(self.want(names, given))]

    def constraint(self, names, given, kw):
        r = self.r
        fb = FALLBACKS[r.weighted([(0, 5), (1, 1), (2, 1)])]
        if fb != F.AXIS_IS_UNSHARDED:
            # only names whose rules cannot conflict: then a match is an assignment
            names = r.pick([("b",), (None, None), ("a", None), (None, "c")])
        has = r.chance(500)
        x = jnp.ones((4,) * len(names))
        if has:
            kw = {**kw, "mesh": _setup["mesh"]}
        if fb != F.AXIS_IS_UNSHARDED:
            kw = {**kw, "fallback": fb}
        want = self.expect(names, given, fb, has or self.mesh)
        eager = has and r.chance(150) and not self.traces
        try:
            if eager:
                y = nnx.with_logical_constraint(x, names, **kw)
                got = [layout(y.sharding, len(names))]
            else:
                got = constraints(lambda: nnx.with_logical_constraint(x, names, **kw))
        except ValueError as e:
            if want is None:
                return
            raise Violation("constraint refused", f"{self.name}: {names} {kw}: {e}") from e
        if eager and want == []:
            # untouched
            want = [layout(x.sharding, len(names))]
        self.check(got, want, "constraint")

    def read(self):
        r = self.r
        layer, specs = r.pick(self.layers)
        i = r.draw(len(specs))
        names, given, has = specs[i]
        want = self.expect(names, given, F.AXIS_IS_UNSHARDED, has or self.mesh)
        if not has and not self.mesh:
            want = []
        got = constraints(lambda: getattr(layer, f"w{i}"))
        self.check(got, want, "read of a partitioned variable")

    def create(self, names, given):
        r = self.r
        has = r.chance(500)
        if self.inits and r.chance(300):
            init, names, given, has = r.pick(self.inits)  # made in another block, perhaps
        else:
            init = nnx.with_logical_partitioning(plain, names, mesh=_setup["mesh"] if has else None,
                                                 rules=None if given is None else RULES[given])
            self.inits.append((init, names, given, has))
        want = self.expect(names, given, F.AXIS_IS_UNSHARDED, has or self.mesh)
        got = constraints(lambda: vars(Layer([(init, (4,) * len(names))]))["w0"].value)
        self.check(got, want, "creation of a partitioned variable")
        if not self.traces and len(self.layers) < 6 and r.chance(400):
            # read again later, in other blocks
            self.layers.append((Layer([(init, (4,) * len(names))]), [(names, given, has)]))
            r.probe("variable created inside a block")

    # ---- structure
    def body(self):
        r = self.r
        while self.left > 0:
            self.left -= 1
            k = r.weighted([("lookup", 9), ("with", 5 if self.depth < 5 else 0), ("set", 2), ("mesh", 1), ("trace", 1),
                            ("stack", 1 if self.depth < 4 else 0), ("leave", 2 if self.depth else 0),
                            ("raise", 2 if self.depth else 0)])
            if k == "lookup":
                self.lookup()
            elif k == "set":
                i = r.draw(len(RULES))
                self.ev("set", i)
                spmd.set_logical_axis_rules(RULES[i])
                self.rules = i
            elif k == "leave":
                return
            elif k == "raise":
                e = r.pick([Injected, InjectedInterrupt])
                r.fault(f"block left by {e.__name__}")
                raise e("out of a block")
            elif r.chance(700):
                self.caught(k)
            else:
                getattr(self, f"do_{k}")()

    def caught(self, k):
        """Faults raised inside end here."""
        try:
            getattr(self, f"do_{k}")()
        except (Injected, InjectedInterrupt):
            self.ev("caught", self.depth)
            self.current()

    def do_with(self):
        i = self.r.draw(len(RULES))
        before = self.rules
        self.ev("enter", i)
        self.depth += 1
        try:
            with nnx.logical_axis_rules(RULES[i]):
                self.rules = i
                self.body()
        finally:
            self.rules = before
            self.depth -= 1
        self.ev("left", i)
        if self.r.chance(600):
            self.current()

    def do_stack(self):
        before = self.rules
        ids = [self.r.draw(len(RULES)) for _ in range(2 + self.r.draw(2))]
        self.ev("enter several", ids)
        self.depth += 1
        try:
            with contextlib.ExitStack() as s:
                for i in ids:
                    s.enter_context(nnx.logical_axis_rules(RULES[i]))
                    self.rules = i
                self.body()
        finally:
            self.rules = before
            self.depth -= 1
        self.current()

    def do_mesh(self):
        before = self.mesh
        self.ev("mesh")
        self.depth += 1
        try:
            with _setup["mesh"]:
                self.mesh = True
                self.body()
        finally:
            self.mesh = before
            self.depth -= 1

    def do_trace(self):
        """Go on while tracing: rules set in there hold until the block is left."""
        self.ev("trace")
        if self.traces > 2:
            return self.body()
        self.traces += 1
        self.depth += 1
        try:
            if self.r.chance(500):
                jax.make_jaxpr(lambda x: (self.body(), x + 1)[1])(jnp.ones(()))
            else:
                # a function of its own every time, so never answered from a cache
                nnx.jit(lambda m, x: (self.body(), x)[1])(self.own, jnp.ones(()))
        finally:
            self.depth -= 1
            self.traces -= 1

    def main(self, n):
        self.own = Layer([])
        self.check(spmd.get_logical_axis_rules(), (), "rules of a new thread")
        self.left = n
        while self.left > 0:
            try:
                self.body()
            except (Injected, InjectedInterrupt):
                self.current()
        self.current()
        self.lookup()


def gen_layers(r):
    out = []
    for _ in range(1 + r.draw(2)):
        specs, inits = [], []
        for _ in range(1 + r.draw(3)):
            names = r.pick(NAMES)
            given = r.draw(len(RULES)) if r.chance(350) else None
            has = r.chance(700)
            specs.append((names, given, has))
            inits.append((nnx.with_logical_partitioning(plain, names, mesh=_setup["mesh"] if has else None,
                                                        rules=None if given is None else RULES[given]),
                          (4,) * len(names)))
        out.append((Layer(inits), specs))
    return out


def run(r):
    setup()
    outside = spmd.get_logical_axis_rules()
    r.check(outside == (), "rules outside every block", lambda: f"{outside}")
    layers = gen_layers(r)
    n = 1 if r.chance(250) else 2 + r.draw(3)
    base = r.draw(len(RULES)) if r.chance(500) else None
    try:
        with contextlib.ExitStack() as s:
            if base is not None:
                s.enter_context(nnx.logical_axis_rules(RULES[base]))
            actors = [Actor(r.sub(f"t{i}"), f"t{i}", layers) for i in range(n)]
            over = {} if n > 1 else {"granularity": "call"}
            sched.threads(r, [(a.name, lambda a=a: a.main(4 + a.r.draw(10))) for a in actors], **over)
            here = spmd.get_logical_axis_rules()
            r.check(here == (RULES[base] if base is not None else ()), "rules in force",
                    lambda: f"main thread: {here}")
        here = spmd.get_logical_axis_rules()
        r.check(here == (), "rules in force", lambda: f"main thread after its block: {here}")
    finally:
        spmd.set_logical_axis_rules(())
    r.nontrivial = sum(a.lookups for a in actors) >= 6
    r.state(n, base, tuple(sorted(a.lookups for a in actors)))
