"""C11: nested, failing and concurrent init calls on graphs that change meanwhile.

Every simulated thread owns some module graphs and runs a random program of init calls
(on any module, through a method or a submodule, nested in each other) whose bodies
attach, detach, replace, create, clone and copy modules and fail at any point. A
reference graph says, for every module ever made, whether it has to report
`is_initializing`, must not, or is left open by the property (a clone made from an
initialising module, or a module attached during a call, until the outermost call ends).
"""
import copy

from dst import model as M, sched
from dst.core import Injected, InjectedInterrupt, Violation
from dst.model import nnx


class Unit(nnx.Module):
    def __call__(self, fn):
        return fn(self)

    def method(self, fn):
        return fn(self)


class Box(nnx.Dict):
    def __call__(self, fn):
        return fn(self)

    def method(self, fn):
        return fn(self)


class Node:
    """A module of the reference graph."""

    def __init__(self, real, name):
        self.real, self.name = real, name
        self.attrs = {}
        self.status = "F"

    def reach(self):
        seen, todo = {}, [self]
        while todo:
            n = todo.pop()
            if id(n) not in seen:
                seen[id(n)] = n
                todo.extend(n.attrs.values())
        return list(seen.values())


class Call:
    def __init__(self, root, start, before):
        self.root, self.start, self.before = root, start, before
        self.ids = {id(n) for n in start}


class Actor:
    def __init__(self, r, name):
        self.r, self.name = r, name
        self.names = M.names(r, 4)
        self.nodes = []
        self.active = []
        self.left = 0
        self.deepest = 0
        self.checks = 0

    def ev(self, *what):
        self.r.ev(f"[{self.name}]", *what)

    def new(self):
        cls = self.r.pick([Unit, Box])
        n = Node(cls(), f"m{len(self.nodes)}")
        self.nodes.append(n)
        return n

    def covered(self, n, calls=None):
        return any(id(n) in c.ids for c in (self.active if calls is None else calls))

    def check(self, when):
        for n in self.nodes:
            if n.status == "U":
                continue
            got = n.real.is_initializing
            self.checks += 1
            self.r.check(got is (n.status == "T"), "is_initializing" if n.status == "T" else "still initializing",
                         lambda: f"{self.name}: {n.name} reports {got} {when}, "
                                 f"active: {[c.root.name for c in self.active]}")

    # ---- operations
    def attach(self):
        r = self.r
        owner, value, name = r.pick(self.nodes), r.pick(self.nodes), r.pick(self.names)
        self.ev("attach", owner.name, name, value.name)
        setattr(owner.real, name, value.real)
        owner.attrs[name] = value
        if self.active and (self.covered(owner) or
                            any(owner in c.root.reach() for c in self.active)):
            for n in value.reach():
                if n.status == "F":
                    n.status = "U"

    def detach(self):
        r = self.r
        owners = [n for n in self.nodes if n.attrs]
        if not owners:
            return
        owner = r.pick(owners)
        name = r.pick(sorted(owner.attrs))
        self.ev("detach", owner.name, name)
        delattr(owner.real, name)
        del owner.attrs[name]

    def clone(self):
        r = self.r
        if len(self.nodes) > 30:
            return
        src = r.pick(self.nodes)
        how = r.pick(["clone", "merge", "copy", "deepcopy"])
        self.ev(how, src.name)
        if how == "copy":
            n = Node(copy.copy(src.real), f"m{len(self.nodes)}")
            n.attrs = dict(src.attrs)
            n.status = "F" if src.status == "F" else "U"
            self.nodes.append(n)
            return
        if how == "clone":
            real = src.real.clone()
        elif how == "merge":
            real = src.real.partition().merge()
        else:
            real = copy.deepcopy(src.real)
        made = {}

        def go(s, real):
            if id(s) in made:
                return made[id(s)]
            n = Node(real, f"m{len(self.nodes)}")
            n.status = "F" if s.status == "F" else "U"
            made[id(s)] = n
            self.nodes.append(n)
            for name, v in sorted(s.attrs.items()):
                n.attrs[name] = go(v, vars(real)[name])
            return n

        go(src, real)

    def init(self):
        """One init call whose body runs further operations."""
        r = self.r
        root = r.pick(self.nodes)
        kinds = [("call", 4), ("method", 2), ("nothing", 1), ("missing", 1)]
        if root.attrs:
            kinds.append(("child", 3))
        kind = r.weighted(kinds)
        self.ev("init", root.name, kind)
        call = Call(root, root.reach(), {id(n): n.status for n in self.nodes})
        entered = [0]

        def body(m):
            entered[0] += 1
            self.active.append(call)
            self.deepest = max(self.deepest, len(self.active))
            for n in call.start:
                n.status = "T"
            self.check("in its init call")
            try:
                if kind != "nothing":
                    self.program()
                return "out"
            finally:
                self.active.pop()

        target = root.real.init
        failed = None
        try:
            if kind == "method":
                out = target.method(body)
            elif kind == "child":
                at = root
                for i in range(4):
                    if not at.attrs or i and not r.chance(450):
                        break
                    name = r.pick(sorted(at.attrs))
                    target = target[name] if isinstance(at.real, Box) and r.chance(300) else getattr(target, name)
                    at = at.attrs[name]
                out = target(body)
            elif kind == "missing":
                out = target.there_is_no_such_method(body)
            else:
                out = target(body)
        except (Injected, InjectedInterrupt) as e:
            failed = e
        except AttributeError as e:
            if kind != "missing":
                raise
            r.fault("init of a missing method")
        else:
            r.check(out == "out", "result of an init call", lambda: f"{out}")
        if kind != "missing":
            r.check(entered[0] == 1, "init call", lambda: f"{self.name}: body ran {entered[0]} times")
        self.ended(call)
        self.ev("ended", root.name, "failed" if failed else "")
        self.check(f"after the init call of {root.name} ended")
        if failed is not None and r.chance(500):
            self.ev("raised on")
            raise failed

    def ended(self, call):
        for n in call.start:
            if self.covered(n):
                n.status = "T"
            else:
                before = call.before[id(n)]
                n.status = "F" if before == "F" else "U"
        outermost = call.before[id(call.root)] == "F"
        for n in call.root.reach():
            if id(n) in call.ids or self.covered(n):
                continue
            if outermost and call.before.get(id(n), "F") == "F":
                # created during the call, or known not to be initialising before
                n.status = "F"
            else:
                n.status = "U"

    def program(self):
        r = self.r
        while self.left > 0:
            self.left -= 1
            r.step()
            k = r.weighted([("init", 5 if len(self.active) < 5 else 0), ("attach", 6), ("detach", 2), ("clone", 3),
                            ("new", 2), ("check", 3), ("return", 3 if self.active else 0),
                            ("fail", 2 if self.active else 0)])
            if k == "return":
                return
            if k == "fail":
                e = r.pick([Injected, InjectedInterrupt])
                r.fault(f"init body fails by {e.__name__}")
                raise e("init")
            if k == "new":
                if len(self.nodes) < 30:
                    self.ev("new", self.new().name)
            elif k == "check":
                self.check("during the program")
            else:
                getattr(self, k)()

    def main(self, n):
        r = self.r
        for _ in range(2 + r.draw(4)):
            self.new()
        for _ in range(r.draw(6)):
            self.attach()
        self.left = n
        while self.left > 0:
            try:
                self.program()
            except (Injected, InjectedInterrupt):
                self.ev("caught")
            self.check("between init calls")
        # afterwards nothing initialises
        for n in list(self.nodes):
            if n.status == "F" and r.chance(150):
                n.real.init(lambda m: None)
        self.check("at the end")


def run(r):
    n = 1 if r.chance(350) else 2 + r.draw(2)
    actors = [Actor(r.sub(f"t{i}"), f"t{i}") for i in range(n)]
    idle = Actor(r.sub("idle"), "idle")
    for _ in range(3):
        idle.new()
    idle.attach()
    if n == 1:
        r.ran("t0")
        actors[0].main(8 + r.draw(20))
    else:
        sched.threads(r, [(a.name, lambda a=a: a.main(6 + a.r.draw(14))) for a in actors])
    idle.check("in another thread")
    for a in actors:
        a.check("after its thread ended")
    r.nontrivial = max(a.deepest for a in actors) >= 1 and sum(a.checks for a in actors) > 20
    r.state(n, tuple(sorted((a.deepest, len(a.nodes)) for a in actors)))
