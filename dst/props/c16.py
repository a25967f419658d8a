"""C16: a parameter server, its workers and replicas exchange TrainState versions.

A discrete-event simulation: the tape decides every message delay, loss, duplication
and reordering, partitions, server crashes back to a checkpointed version, torn
gradients and failing optimizers. Each version the server, a worker or a replica ever
made is retained and compared with the fold of the updates that led to it (optax on
plain dictionaries); old versions, gradients and module definitions must never change.
A second form lets simulated threads update one pool of versions concurrently.
"""
import heapq

import jax
import jax.numpy as jnp
import numpy as np
import optax

from dst import model as M, sched
from dst.core import Injected, Violation
from dst.model import nnx


# ------------------------------------------------------------------ the model
class Layer(nnx.Module):
    def __init__(self, w, b):
        self.w = nnx.Param(jnp.asarray(w))
        if b is not None:
            self.b = nnx.Param(jnp.asarray(b))
        self.count = nnx.BatchStat(jnp.float32(0))

    def __call__(self, h):
        h = h * self.w
        if hasattr(self, "b"):
            h = h + self.b
        self.count = self.count + 1
        return h


class Net(nnx.Module):
    def __init__(self, layers):
        self.layers = nnx.Dict(layers) if isinstance(layers, dict) else nnx.Sequence(layers)

    def order(self):
        if isinstance(self.layers, nnx.Sequence):
            return list(self.layers)
        return [getattr(self.layers, n) for n in sorted(vars(self.layers)) if not n.startswith("_")]

    def __call__(self, x, fail=None):
        h = x
        for i, layer in enumerate(self.order()):
            if fail == i:
                raise Injected("forward")
            h = layer(h)
        return h


class Arch:
    """The network: names of its layers in call order, which of them share one module."""

    def __init__(self, r):
        n = 1 + r.draw(3)
        self.seq = r.chance(400)
        self.names = [str(i) for i in range(n)] if self.seq else ["abc"[i] for i in range(n)]
        self.share = {}
        if n > 1 and r.chance(400):
            a = r.draw(n - 1)
            self.share[self.names[n - 1]] = self.names[a]
        self.bias = {k: r.chance(500) for k in self.names}
        self.init = {k: (vec(r), vec(r)) for k in self.names}

    def path(self, k):
        return f"layers/{self.share.get(k, k)}"

    def build(self):
        made = {}
        for k in self.names:
            if k not in self.share:
                w, b = self.init[k]
                made[k] = Layer(w, b if self.bias[k] else None)
        layers = [made[self.share.get(k, k)] for k in self.names]
        return Net(layers if self.seq else dict(zip(self.names, layers)))

    def ref(self):
        params, stats = {}, {}
        for k in self.names:
            if k in self.share:
                continue
            p = self.path(k)
            params[p + "/w"] = self.init[k][0]
            if self.bias[k]:
                params[p + "/b"] = self.init[k][1]
            stats[p + "/count"] = np.float32(0)
        return dict(sorted(params.items())), dict(sorted(stats.items()))

    def forward(self, params, stats, x):
        """Output, new stats and gradient of sum(out * out)."""
        stats = dict(stats)
        hs = [x]
        for k in self.names:
            p = self.path(k)
            h = hs[-1] * params[p + "/w"]
            if p + "/b" in params:
                h = h + params[p + "/b"]
            hs.append(h)
            stats[p + "/count"] = np.float32(stats[p + "/count"] + 1)
        d = hs[-1] + hs[-1]
        grads = {}
        for k, h in reversed(list(zip(self.names, hs))):
            p = self.path(k)
            g = {"/w": d * h}
            if p + "/b" in params:
                g["/b"] = d
            for n, v in g.items():
                grads[p + n] = grads[p + n] + v if p + n in grads else v
            d = d * params[p + "/w"]
        return hs[-1], stats, dict(sorted(grads.items()))


def vec(r):
    return np.asarray([(r.draw(9) - 4) / 4 for _ in range(2)], np.float32)


class Switch:
    """Makes the optimizer fail on demand."""

    armed = False


def optimizers(r, switch):
    c = r.draw(7)
    lr = r.pick([0.5, 0.125, 0.01])
    if c == 0:
        tx = optax.sgd(lr)
    elif c == 1:
        tx = optax.sgd(lr, momentum=0.5)
    elif c == 2:
        tx = optax.sgd(lr, momentum=0.9, nesterov=True)
    elif c == 3:
        tx = optax.adam(lr)
    elif c == 4:
        tx = optax.adamw(lr, weight_decay=0.25)
    elif c == 5:
        tx = optax.chain(optax.add_decayed_weights(0.125), optax.trace(0.5), optax.scale(-lr))
    else:
        tx = optax.sgd(optax.linear_schedule(lr, lr / 4, 4), momentum=0.25)
    update = tx.update

    def failing(grads, state, params=None):
        if switch.armed:
            raise Injected("optimizer")
        return update(grads, state, params)

    return ["sgd", "momentum", "nesterov", "adam", "adamw", "decay+trace", "schedule"][c], \
        optax.GradientTransformation(tx.init, failing), tx


# ------------------------------------------------------------------ versions
class Version:
    """A TrainState and what it has to contain, for ever."""

    __slots__ = ("real", "params", "opt", "step", "stats", "origin")

    def __init__(self, real, params, opt, step, stats, origin):
        self.real, self.params, self.opt, self.step, self.stats, self.origin = real, params, opt, step, stats, origin

    def derive(self, tx, grads, stats, origin, real):
        updates, opt = tx.update(jax.tree_map(jnp.asarray, grads), self.opt, jax.tree_map(jnp.asarray, self.params))
        params = optax.apply_updates(jax.tree_map(jnp.asarray, self.params), updates)
        return Version(real, {k: np.asarray(v) for k, v in params.items()}, opt, self.step + 1,
                       self.stats if stats is None else stats, origin)


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=True)


def dict_diff(state, ref, kind):
    if not isinstance(state, nnx.State):
        return f"a {type(state).__name__} instead of a State"
    if list(state) != list(ref):
        return f"paths {list(state)} instead of {list(ref)}"
    for p, v in ref.items():
        leaf = state[p]
        if type(leaf) is not kind:
            return f"{p} is a {type(leaf).__name__}"
        if not same(leaf.value, v):
            return f"{p}: {np.asarray(leaf.value).tolist()} instead of {np.asarray(v).tolist()}"
    return None


def version_diff(v):
    s = v.real
    d = dict_diff(s.params, v.params, nnx.Param)
    if d:
        return f"params: {d}"
    if int(s.step) != v.step:
        return f"step {int(s.step)} instead of {v.step}"
    a, b = jax.tree_util.tree_leaves(s.opt_state), jax.tree_util.tree_leaves(v.opt)
    if type(s.opt_state) is not type(v.opt) or len(a) != len(b):
        return "optimizer state of another structure"
    for i, (x, y) in enumerate(zip(a, b)):
        if not same(x, y):
            return f"optimizer state leaf {i}: {np.asarray(x).tolist()} instead of {np.asarray(y).tolist()}"
    if v.stats is not None:
        d = dict_diff(s.stats, v.stats, nnx.BatchStat)
        if d:
            return f"stats: {d}"
    return None


class World:
    def __init__(self, r):
        self.run = r
        self.arch = Arch(r)
        self.switch = Switch()
        self.txname, self.tx, self.reftx = optimizers(r, self.switch)
        self.with_stats = r.chance(500)
        self.versions = []
        self.grads = []  # every gradient made, and what it contained
        self.now = 0
        net = self.arch.build()
        params, stats = self.arch.ref()
        # near where narrower counters wrap
        step = r.pick([0, 0, 7, 125, 253, 32765, 65533, 2**24, 2**31 - 300])
        pure = net.partition(nnx.Param, nnx.BatchStat) if r.chance(500) else None
        if pure is not None:
            (p, s), self.moduledef = pure
        else:
            (p, s), self.moduledef = net.partition("dummy") if False else net.partition(nnx.Param, ...)
        self.init_stats = s
        kw = {"stats": nnx.TreeNode(s)} if self.with_stats else {}
        real = nnx.TrainState(self.moduledef, params=p, tx=self.tx, step=step, **kw)
        opt = self.reftx.init({k: jnp.asarray(v) for k, v in params.items()})
        self.add(Version(real, params, opt, step, stats if self.with_stats else None, "init"))
        self.defhash = hash(self.moduledef)
        r.ev("model", repr(self.arch.names), repr(self.arch.share), self.txname, "stats" if self.with_stats else "")
        self.check_all("construction")

    def add(self, v):
        self.versions.append(v)
        return v

    # ---- invariants
    def check(self, v, what):
        d = version_diff(v)
        if d:
            raise Violation(f"version wrong after {what}", f"version from {v.origin}: {d}")

    def check_all(self, what):
        for v in self.versions:
            self.check(v, what)
        for g, ref in self.grads:
            d = dict_diff(g, ref, nnx.Param)
            if d:
                raise Violation(f"gradient changed after {what}", d)
        if hash(self.moduledef) != self.defhash:
            raise Violation("module definition changed", what)

    # ---- operations on real train states
    def gradient(self, v, x, how):
        """What a worker computes from one version: gradient and new statistics."""
        s = v.real
        net_stats = "stats" if self.with_stats else self.init_stats

        if how == "apply":
            def loss(params):
                out, pure = s.apply(params, net_stats)(jnp.asarray(x))
                return jnp.sum(out * out), pure.filter(nnx.BatchStat)

            grads, stats = jax.grad(loss, has_aux=True)(s.params)
        else:
            module = s.moduledef.merge(s.params, s.stats if self.with_stats else self.init_stats)

            def loss(m):
                out = m(jnp.asarray(x))
                return jnp.sum(out * out)

            grads = nnx.grad(loss, wrt=nnx.Param)(module)
            stats = module.filter(nnx.BatchStat)
        ref_stats = v.stats if self.with_stats else self.arch.ref()[1]
        _, new_stats, ref = self.arch.forward(v.params, ref_stats, x)
        d = dict_diff(grads, ref, nnx.Param)
        if d:
            raise Violation("gradient wrong", f"{how}: {d}")
        d = dict_diff(stats, new_stats, nnx.BatchStat)
        if d:
            raise Violation("statistics wrong", f"{how}: {d}")
        self.grads.append((grads, ref))
        return grads, ref, stats, new_stats

    def evaluate(self, v, x, fail):
        """Run the model of a version; nothing changes, whatever happens."""
        s = v.real
        by_name = ["params", "stats"] if self.with_stats else ["params", self.init_stats]
        if self.run.chance(300):
            by_name[0] = s.params
        ok, out = self.run.attempt(s.apply(*by_name), jnp.asarray(x), fail=fail)
        if fail is not None:
            self.run.fault("forward pass fails")
            self.run.check(not ok and isinstance(out, Injected), "failure lost", lambda: str(out))
            return
        if not ok:
            raise Violation(f"apply:{type(out).__name__}", str(out)) from out
        y, pure = out
        want, stats, _ = self.arch.forward(v.params, v.stats if self.with_stats else self.arch.ref()[1], x)
        self.run.check(same(y, want), "apply result", lambda: f"{np.asarray(y)} instead of {want}")
        d = dict_diff(pure.filter(nnx.BatchStat), stats, nnx.BatchStat)
        self.run.check(d is None, "apply state", lambda: d)

    def update(self, v, grads, ref, stats=None, ref_stats=None, origin="", fault=None):
        """Apply a gradient to a version: a new version, or nothing at all."""
        r = self.run
        kw = {"stats": stats} if self.with_stats and stats is not None else {}
        if fault == "optimizer":
            self.switch.armed = True
        elif fault == "unknown field":
            kw["nothing"] = 1
        elif fault == "torn":
            keys = list(grads)
            grads = nnx.State({k: grads[k] for k in keys[1:]})
        elif fault == "extra":
            grads = nnx.State({**grads, "zz": next(iter(grads.values()))})
        elif fault == "unboxed":
            grads = nnx.State({k: x.value for k, x in grads.items()})
        ok, out = r.attempt(v.real.apply_gradients, grads, **kw)
        self.switch.armed = False
        if fault is not None:
            r.fault(f"update fails: {fault}")
            r.check(not ok, "bad update accepted", fault)
            self.check(v, "failed update")
            return None
        if not ok:
            raise Violation(f"update:{type(out).__name__}", str(out)) from out
        new = v.derive(self.reftx, ref, ref_stats if kw else None, origin, out)
        self.check(new, "update")
        self.check(v, "update of it")
        return self.add(new)


FAULTS = ["optimizer", "unknown field", "torn", "extra", "unboxed"]


# ------------------------------------------------------------------ the network
class Net_:
    def __init__(self, w):
        self.w, self.queue, self.n = w, [], 0
        self.cut = set()
        r = w.run
        self.loss = r.pick([0, 100, 250])
        self.dup = r.pick([0, 100, 250])
        self.slow = r.pick([1, 5, 20])

    def send(self, src, dst, msg):
        r = self.w.run
        if src in self.cut or dst in self.cut:
            r.fault("message lost in a partition")
            return
        if r.chance(self.loss):
            r.fault("message lost")
            return
        copies = 1
        if r.chance(self.dup):
            r.fault("message duplicated")
            copies = 2
        for _ in range(copies):
            d = 1 + r.draw(self.slow)
            if r.chance(60):
                d += 40
                r.fault("message delayed")
            self.push(self.w.now + d, dst, msg)

    def push(self, t, dst, msg):
        self.n += 1
        heapq.heappush(self.queue, (t, self.n, dst, msg))


class Server:
    """Holds the versions of record; replays nothing, forgets all but checkpoints."""

    def __init__(self, w, v):
        self.w = w
        self.epoch, self.log = 0, []     # log: (grads, ref, stats, ref_stats) per seq
        self.by_seq = [v]                # version after each prefix of the log
        self.durable = 0                 # length of the checkpointed prefix
        self.history = {}                # (epoch, seq) -> version handed out

    @property
    def current(self):
        return self.by_seq[-1]


class Replica:
    def __init__(self, v):
        self.epoch, self.by_seq, self.waiting = 0, [v], {}


def wire(w, real):
    """How a version travels: as the object itself, or as leaves rebuilt by the receiver."""
    if w.wire == "object":
        return real
    leaves, treedef = jax.tree_util.tree_flatten(real)
    return jax.tree_util.tree_unflatten(treedef, [jnp.asarray(np.asarray(x)) for x in leaves])


def simulate(r):
    w = World(r)
    w.wire = r.pick(["object", "leaves"])
    net = Net_(w)
    srv = Server(w, w.versions[0])
    n_workers, n_replicas = 1 + r.draw(3), r.draw(3)
    replicas = {f"r{i}": Replica(w.versions[0]) for i in range(n_replicas)}
    workers = {f"w{i}": None for i in range(n_workers)}
    goal = 3 + r.draw(6)
    for k in workers:
        net.push(1 + r.draw(5), k, ("wake",))
    for _ in range(r.draw(3)):
        net.push(5 + r.draw(60), "srv", ("crash",))
    if r.chance(400):
        net.push(5 + r.draw(40), "net", ("cut", r.pick(["srv", *workers, *replicas])))
    applied = 0
    budget = 160
    while net.queue and budget:
        budget -= 1
        w.now, _, dst, msg = heapq.heappop(net.queue)
        kind = msg[0]
        r.ev(w.now, dst, kind)
        r.step()
        r.ran(dst + kind)
        if kind == "cut":
            net.cut = {msg[1]}
            r.fault("partition")
            net.push(w.now + 10 + r.draw(30), "net", ("heal",))
        elif kind == "heal":
            net.cut = set()
        elif dst in workers:
            on_worker(w, net, workers, dst, msg)
        elif dst == "srv":
            applied += on_server(w, net, srv, replicas, msg)
        elif dst in replicas:
            on_replica(w, replicas[dst], msg)
        if applied >= goal:
            break
        if r.chance(200):
            v = r.pick(w.versions)
            w.check(v, kind)
    # faults stop: the log is sent again until every replica has it
    net.cut, net.loss, net.dup, net.slow = set(), 0, 0, 1
    for name, rep in replicas.items():
        for seq, upd in enumerate(srv.log):
            on_replica(w, rep, ("log", srv.epoch, seq, len(srv.log), upd))
        r.check(len(rep.by_seq) == len(srv.by_seq), "replica stuck", name)
        a, b = (jax.tree_util.tree_leaves((v.real.params, v.real.opt_state, v.real.step))
                for v in (rep.by_seq[-1], srv.current))
        r.check(len(a) == len(b) and all(same(x, y) for x, y in zip(a, b)), "replica differs", name)
    w.check_all("the run")
    r.probe("updates applied by the server") if applied else None
    r.nontrivial = len(w.versions) > 3


def on_worker(w, net, workers, me, msg):
    r = w.run
    if msg[0] == "wake":
        net.send(me, "srv", ("pull", me))
        net.push(w.now + 8 + r.draw(10), me, ("wake",))
        return
    _, tag, real, v = msg
    mine = Version(real, v.params, v.opt, v.step, v.stats, v.origin + " as received")
    w.check(mine, "transfer")
    x = vec(r)
    if r.chance(150):
        w.evaluate(mine, x, r.draw(len(w.arch.names)) if r.chance(400) else None)
    out = w.gradient(mine, x, r.pick(["apply", "apply", "grad"]))
    if r.chance(200):
        # a local step of the worker's own; the server's version stays what it was
        w.update(mine, *out, origin=f"local step of {me}")
    net.send(me, "srv", ("push", tag, out))


def on_server(w, net, srv, replicas, msg):
    r = w.run
    kind = msg[0]
    if kind == "pull":
        tag = (srv.epoch, len(srv.by_seq) - 1)
        v = srv.current
        if r.chance(150):
            # an older version is served
            i = r.draw(len(srv.by_seq))
            tag, v = (srv.epoch, i), srv.by_seq[i]
        net.send("srv", msg[1], ("version", tag, wire(w, v.real), v))
        return 0
    if kind == "crash":
        # everything after the last checkpoint is lost, and so are messages on their way
        r.fault("server crash")
        srv.epoch += 1
        lost = len(srv.log) - srv.durable
        del srv.log[srv.durable:], srv.by_seq[srv.durable + 1:]
        net.queue = [e for e in net.queue if e[2] != "srv" or e[3][0] == "crash" or r.chance(200)]
        heapq.heapify(net.queue)
        r.ev("lost", lost)
        w.check(srv.current, "crash")
        return 0
    _, tag, upd = msg
    if r.chance(120):
        w.update(srv.current, *upd, origin="failing", fault=r.pick(FAULTS))
    if r.chance(150) and tag[0] == srv.epoch and tag[1] < len(srv.by_seq):
        # a branch from the version the worker saw; the line of record stays
        w.update(srv.by_seq[tag[1]], *upd, origin=f"branch of {tag}")
    new = w.update(srv.current, *upd, origin=f"update {srv.epoch}.{len(srv.log)}")
    srv.log.append(upd)
    srv.by_seq.append(new)
    if r.chance(300):
        srv.durable = len(srv.log)
    for name in replicas:
        net.send("srv", name, ("log", srv.epoch, len(srv.log) - 1, srv.durable, upd))
    return 1


def on_replica(w, rep, msg):
    _, epoch, seq, durable, upd = msg
    if epoch < rep.epoch:
        return
    if epoch > rep.epoch:
        # the server lost updates: go back to a version that is on record everywhere
        rep.epoch = epoch
        del rep.by_seq[1:]
        rep.waiting = {}
    rep.waiting[seq] = upd
    while len(rep.by_seq) - 1 in rep.waiting:
        seq = len(rep.by_seq) - 1
        upd = rep.waiting.pop(seq)
        rep.by_seq.append(w.update(rep.by_seq[-1], *upd, origin=f"replica {epoch}.{seq}"))


# ------------------------------------------------------------------ threads
def concurrent(r):
    w = World(r)
    seeds = [w.gradient(w.versions[0], vec(r), "apply") for _ in range(3)]
    n = 2 + r.draw(2)
    jitted = r.chance(300) and w.txname in ("sgd",)

    def body(i, rr):
        def go():
            for _ in range(1 + rr.draw(4)):
                v = w.versions[rr.draw(len(w.versions))]
                c = rr.draw(6)
                upd = seeds[rr.draw(len(seeds))]
                if c <= 2:
                    kw = {"stats": upd[2]} if w.with_stats and rr.chance(500) else {}
                    out = v.real.apply_gradients(upd[0], **kw)
                    new = v.derive(w.reftx, upd[1], upd[3] if kw else None, f"thread {i}", out)
                    w.check(new, "concurrent update")
                    w.add(new)
                elif c == 3:
                    w.evaluate_in(rr, v, vec(rr))
                elif c == 4:
                    ok, e = rr.attempt(v.real.apply_gradients, upd[0], nothing=1)
                    rr.check(not ok, "bad update accepted", "")
                    rr.fault("update fails: unknown field")
                else:
                    try:
                        v.real.step = jnp.asarray(100)
                        raise Violation("assignment accepted", "to a train state")
                    except AttributeError:
                        rr.probe("assignment refused")
                w.check(v, "concurrent use")
                sched.point("between operations")

        return go

    del jitted
    sched.threads(r, [(f"t{i}", body(i, r.sub(f"w{i}"))) for i in range(n)])
    w.check_all("the run")
    r.nontrivial = len(w.versions) > 2


def _evaluate_in(w, rr, v, x):
    s = v.real
    y, pure = s.apply("params", "stats" if w.with_stats else w.init_stats)(jnp.asarray(x))
    want, stats, _ = w.arch.forward(v.params, v.stats if w.with_stats else w.arch.ref()[1], x)
    rr.check(same(y, want), "apply result", lambda: f"{np.asarray(y)} instead of {want}")
    d = dict_diff(pure.filter(nnx.BatchStat), stats, nnx.BatchStat)
    rr.check(d is None, "apply state", lambda: d)


World.evaluate_in = _evaluate_in


def run(r):
    if r.chance(750):
        simulate(r)
    else:
        concurrent(r)
