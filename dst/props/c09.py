"""C09: threads print objects while other reprs fail.

Objects of every printable kind (modules with sharing and cycles, states, pytrees,
containers, module definitions, pure modules) are printed by several simulated
threads, which are preempted inside the printing code. Some attributes fail to print
on demand; the exceptions are kept, and dropped later, also by another thread in the
middle of its own printing. The expected text comes from printing a twin of the
object alone, in a thread of its own that has printed nothing before.
"""
import threading

import jax.numpy as jnp

from dst import model as M, sched
from dst.core import Injected, InjectedInterrupt, Violation
from dst.model import nnx

local = threading.local()


class Cell(nnx.Module):
    def __init__(self):
        pass


class Point(nnx.Pytree):
    x: int = nnx.node_field(default=1)
    y: object = nnx.node_field(default=2)

    def __init__(self, x, y):
        self.x = x
        self.y = y


class Fails:
    """Fails to print when the calling thread armed it."""

    def __init__(self, text):
        self.text = text

    def __repr__(self):
        n = getattr(local, "arm", None)
        if n is not None:
            n[0] -= 1
            if n[0] == 0:
                n[1].fault(f"repr fails by {n[2].__name__}")
                raise n[2]("repr")
        return self.text


class Drops:
    """Drops kept exceptions while something is being printed."""

    def __repr__(self):
        held = getattr(local, "held", None)
        if held:
            held.clear()
        return "drops"


class Peeks:
    """Prints another object from within a repr."""

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return "<" + repr(self.what) + ">"


TEXTS = ["t", "one\ntwo", "a\n\nb", "'quoted'"]


def gen(r):
    """A recipe: [(kind, cls, attrs)]; attrs refer to other nodes."""
    n = 1 + r.draw(4)
    nodes = []
    for i in range(n):
        attrs = []
        for j in range(1 + r.draw(4)):
            k = r.weighted([("mod", 5), ("fails", 3), ("drops", 1), ("peek", 1), ("static", 2), ("var", 2), ("box", 1),
                            ("pytree", 1), ("string", 1)])
            arg = r.draw(n) if k in ("mod", "peek", "pytree") else r.draw(4)
            attrs.append((f"{'abcdefg'[j]}{k[0]}", k, arg))
        nodes.append((r.draw(2), attrs))
    return nodes


def build(nodes):
    mods = [(Cell, nnx.Dict)[c]() for c, _ in nodes]
    for m, (_, attrs) in zip(mods, nodes):
        for name, k, arg in attrs:
            if k == "mod":
                v = mods[arg]
            elif k == "fails":
                v = Fails(TEXTS[arg])
            elif k == "drops":
                v = Drops()
            elif k == "peek":
                v = Peeks(mods[arg])
            elif k == "static":
                v = [2, (1, 2), None, {"k": 1}][arg]
            elif k == "var":
                v = nnx.Param(M.arr(float(arg)))
            elif k == "box":
                v = nnx.Static(Fails(TEXTS[arg]))
            elif k == "pytree":
                v = Point(Fails(TEXTS[arg % 4]), mods[arg])
            else:
                v = TEXTS[arg]
            setattr(m, name, v)
    return mods


VIEWS = {
    "module": lambda m: m,
    "definition": lambda m: m.get_module_def(),
    "state": lambda m: m.get_state(),
    "pure": lambda m: m.partition(),
    "leaves": lambda m: m.mutable_state_dict(),
    "pytree": lambda m: Point(m, Fails("in a pytree")),
    "variable": lambda m: nnx.Param(m),
    "static": lambda m: nnx.Static((m, Fails("in a container"))),
    "list": lambda m: [m, m],
    "dict": lambda m: nnx.Dict(first=m, second=m, text=Fails("in a dict")),
    "sequence": lambda m: nnx.Sequence([m, m]),
}


def alone(fn):
    """The result of fn in a new thread."""
    out, failed = [], []

    def go():
        try:
            out.append(fn())
        except BaseException as e:  # noqa: BLE001
            failed.append(e)

    t = threading.Thread(target=go)
    t.start()
    t.join(60)
    if not out:
        raise Violation("print-alone", f"printing alone in a new thread failed: {failed[0]!r}" if failed else "hangs")
    return out[0]


class Printer:
    def __init__(self, r, name, objs, texts, held):
        self.r, self.name, self.objs, self.texts, self.held = r, name, objs, texts, held

    def step(self):
        r = self.r
        i = r.draw(len(self.objs))
        view, obj = self.objs[i]
        local.held = self.held
        fail = r.chance(350)
        # a failure may hit any of the attributes that can fail
        local.arm = [1 + r.draw(4), r, r.pick([Injected, InjectedInterrupt])] if fail else None
        r.step()
        try:
            text = repr(obj)
        except (Injected, InjectedInterrupt) as e:
            if not fail:
                raise Violation("repr failed though nothing was armed", view) from e
            r.ev(f"[{self.name}]", "print", i, view, "failed")
            if r.chance(700):
                self.held.append(e)
            return
        except Exception as e:  # noqa: BLE001
            raise Violation(f"repr:{type(e).__name__}", f"{view}: {e}") from e
        finally:
            local.arm = None
        r.ev(f"[{self.name}]", "print", i, view)
        want = self.texts[i]
        r.check(text == want, "repr differs", lambda: f"{view}:\n{text}\ninstead of\n{want}")

    def main(self, n):
        for _ in range(n):
            self.step()
            if self.r.chance(150):
                self.held.clear()


def run(r):
    n_graphs = 1 + r.draw(2)
    objs, texts = [], []
    for _ in range(n_graphs):
        recipe = gen(r)
        mods, twins = build(recipe), build(recipe)
        for _ in range(2 + r.draw(4)):
            view = r.pick(["module", "module", *sorted(VIEWS)])
            k = r.draw(len(mods))
            objs.append((view, VIEWS[view](mods[k])))
            texts.append(alone(lambda: repr(VIEWS[view](twins[k]))))
    for (v, _), t in zip(objs, texts):
        r.ev("object", v, t)
    local.held = None
    n = 1 if r.chance(300) else 2 + r.draw(3)
    held = []
    if n == 1:
        p = Printer(r, "t0", objs, texts, held)
        for _ in range(4 + r.draw(10)):
            p.step()
            r.ran("t0")
            if r.chance(150):
                held.clear()
    else:
        ps = [Printer(r.sub(f"t{i}"), f"t{i}", objs, texts, held) for i in range(n)]
        sched.threads(r, [(p.name, lambda p=p: p.main(2 + p.r.draw(4))) for p in ps])
    # whatever happened: the main thread prints everything as before
    local.arm = None
    local.held = None
    for i, (v, o) in enumerate(objs):
        text = r.must("final repr", repr, o)
        r.check(text == texts[i], "repr differs", lambda: f"afterwards, {v}:\n{text}\ninstead of\n{texts[i]}")
    held.clear()
    r.nontrivial = any("..." in t for t in texts)
    r.state(n, len(objs), tuple(sorted({v for v, _ in objs})))
