"""C01: training under kills, restarts and a lossy disk.

A training job over a model of library layers and user blocks (shared, nested and
cyclic submodules, Dict/Sequence, batch statistics, dropout and noise from an RNG
context, raw arrays), an optimizer and a data stream, eager or jitted, as a module or
as a TrainState. At chosen steps it saves a checkpoint in one of several forms to a
simulated disk with a write cache: unsynced data is lost or torn by a crash, renames
may be lost, the disk fills up. Kills strike between and inside steps and saves; the
restarted job builds a fresh model (other seeds, other attribute order, abstractly, in
another process with another hash seed), loads the last valid checkpoint and goes on.
The uninterrupted job, run without any saves, is the oracle: every loss, key, variable,
optimizer value and step of the resumed job has to be bitwise the same.
"""
import io
import pickle
import random
import zlib

import jax
import jax.numpy as jnp
import numpy as np
import optax
from flax import serialization

from dst import env, peer
from dst.core import Injected, InjectedInterrupt, Violation

nnx = env.load()

D = 2


class Kill(Exception):
    """The process is killed here."""


# ------------------------------------------------------------------ models
class Point:
    """The next layer to be killed in, counted over all layers called."""

    left = 0

    @classmethod
    def hit(cls):
        if cls.left:
            cls.left -= 1
            if not cls.left:
                raise Kill


class Scale(nnx.Module):
    """y = x * w + b, counts its calls."""

    def __init__(self, ctx, order):
        names = ["w", "b", "count", "raw", "tag"]
        for n in order(names):
            if n == "w":
                self.w = nnx.Param(jax.random.normal(ctx.make_rng("params"), (D,)), note="w")
            elif n == "b":
                self.b = nnx.Param(jnp.zeros((D,)))
            elif n == "count":
                self.count = nnx.BatchStat(jnp.zeros((), jnp.int32))
            elif n == "raw":
                self.raw = jnp.full((D,), 0.5)
            else:
                self.tag = "scale"

    def __call__(self, x, ctx):
        self.count = self.count + 1
        self.raw = self.raw * 0.5 + jnp.mean(x, 0)
        return x * self.w + self.b


class Noise(nnx.Module):
    def __call__(self, x, ctx):
        return x + 0.125 * jax.random.normal(ctx.make_rng("noise"), x.shape)


class Wrap(nnx.Module):
    """A block of named children called in sorted order; a child may be shared."""

    def __init__(self, children, order):
        for n in order(sorted(children)):
            setattr(self, n, children[n])

    def __call__(self, x, ctx):
        for n in sorted(k for k in vars(self) if k[0] == "k"):
            x = invoke(getattr(self, n), x, ctx)
        return x


class Table(nnx.Dict):
    def __call__(self, x, ctx):
        for n in sorted(k for k in vars(self) if k[0] == "k"):
            x = invoke(self[n], x, ctx)
        return x


class Logged(nnx.Module):
    """Records its mean; the job pops the records after every step."""

    def __call__(self, x, ctx):
        self.sow(nnx.Intermediate, "log", jnp.mean(x))
        return x


class Ema(nnx.Module):
    """User variable kinds."""

    def __init__(self, ctx, order):
        del ctx
        for n in order(["mean", "seen"]):
            if n == "mean":
                self.mean = Average(jnp.zeros((D,)), decay=0.5)
            else:
                self.seen = nnx.Cache(jnp.zeros((), jnp.int32))

    def __call__(self, x, ctx):
        self.mean = self.mean * 0.5 + 0.5 * jnp.mean(x, 0)
        self.seen = self.seen + 1
        return x - 0.25 * self.mean


class Average(nnx.Variable):
    pass


class Cell(nnx.Module):
    """One layer of a scanned stack."""

    def __init__(self, *, ctx):
        self.w = nnx.Param(jax.random.normal(ctx.make_rng("params"), (D,)))
        self.calls = nnx.BatchStat(jnp.zeros((), jnp.int32))

    def __call__(self, x, _, *, ctx):
        self.calls = self.calls + 1
        return x * self.w + 0.125 * jax.random.normal(ctx.make_rng("noise"), x.shape), None


def Stack(ctx):
    return nnx.Scan(Cell, variable_axes={nnx.Param: 0}, variable_carry=nnx.BatchStat, length=2,
                    split_rngs=["params", "noise"])(ctx=ctx)


def invoke(m, x, ctx):
    Point.hit()
    if isinstance(m, (nnx.Linear, nnx.LayerNorm)):
        return m(x)
    if isinstance(m, nnx.Scan):
        return m(x, None, ctx=ctx)[0]
    return m(x, ctx=ctx)


KINDS = ["scale", "scale", "linear", "batchnorm", "layernorm", "dropout", "noise", "logged", "ema", "remat"]
ARCHS = 40
STACKED = {n for n in range(ARCHS) if n % 10 == 9}


def build(n, seed, perm=None):
    """The model of architecture n, initialised from `seed`.

    perm shuffles the order in which every module gets its attributes.
    """
    rng = random.Random(f"c01 {n}")
    ctx = nnx.context(params=seed, noise=seed + 1)
    made = []

    def order(names):
        names = list(names)
        if perm is not None:
            random.Random(f"{perm} {len(made)}").shuffle(names)
        return names

    def leaf():
        k = rng.choice(KINDS)
        if k in ("scale", "remat"):
            m = Scale(ctx, order)
            return m
        if k == "linear":
            return nnx.Linear(D, D, ctx=ctx)
        if k == "batchnorm":
            return nnx.BatchNorm(D, momentum=0.5, ctx=ctx)
        if k == "layernorm":
            return nnx.LayerNorm(D, ctx=ctx)
        if k == "dropout":
            return nnx.Dropout(0.5)
        if k == "noise":
            return Noise()
        if k == "logged":
            return Logged()
        return Ema(ctx, order)

    def node(depth):
        if made and rng.random() < 0.25:
            return rng.choice(made)
        if depth < 2 and rng.random() < 0.4:
            kids = {f"k{i}": node(depth + 1) for i in rng.sample(range(12), 1 + rng.randrange(3))}
            k = rng.choice(["wrap", "wrap", "table", "seq"])
            if k == "seq":
                m = nnx.Sequence(list(kids.values()))
            else:
                m = Wrap(kids, order) if k == "wrap" else Table({a: kids[a] for a in order(sorted(kids))})
        else:
            m = leaf()
        made.append(m)
        return m

    kids = {"k00": Scale(ctx, order)}
    for i in range(rng.randrange(1 + min(n, 4))):
        kids[f"k{rng.choice('abcdefgh')}{i}"] = node(1)
    if n in STACKED:
        kids["kstack"] = Stack(ctx)
    root = Wrap(kids, order)
    if rng.random() < 0.3:
        # a second name for a submodule, and a cycle
        root.also = rng.choice(made) if made else root.k00
        root.k00.up = root
    return root


def txs(i):
    return [optax.sgd(0.125), optax.sgd(0.125, momentum=0.5), optax.adam(0.125),
            optax.chain(optax.clip_by_global_norm(1.0), optax.adamw(0.125, weight_decay=0.25)),
            optax.rmsprop(0.125), optax.sgd(optax.exponential_decay(0.25, 2, 0.5))][i]


def batch(seed, step):
    g = np.random.default_rng([seed, step])
    return jnp.asarray(g.integers(-4, 5, (3, D)).astype(np.float32) / 4)


# ------------------------------------------------------------------ the job
FLAGS = {"deterministic": False, "use_running_average": False}


class Spec:
    """What job is run; everything a fresh process needs to know."""

    def __init__(self, r):
        self.arch = r.draw(ARCHS)
        self.tx = r.draw(6)
        self.seed = r.draw(100)
        self.style = r.pick(["module", "module", "train state", "functional"])
        self.jit = self.arch < 10 and self.arch not in STACKED and r.chance(250)
        self.steps = 3 + r.draw(4)
        self.fork_every = r.pick([1, 1, 1, 2])
        self.keep_log = r.chance(250) and self.style == "module" and not self.jit
        self.data = r.draw(100)

    def __repr__(self):
        return f"arch {self.arch} tx {self.tx} {self.style}{' jit' if self.jit else ''} steps {self.steps}" \
               f"{' log' if self.keep_log else ''} fork {self.fork_every}"


def loss_of(model, x, ctx):
    y = model(x, ctx=ctx)
    return jnp.mean((y - 1.0) ** 2)


JITS = {}


def step_functions(spec):
    """(gradient of a module, forward and gradient of a train state)."""
    def grad_fn(m, x, pctx):
        return nnx.grad(lambda m, x, p: (lambda l: (l, l))(loss_of(m, x, p.merge())), wrt=nnx.Param,
                        has_aux=True)(m, x, pctx)

    def value_fn(params, others, moduledef, x, pctx):
        def f(p):
            y, new = moduledef.apply(p, others)(x, ctx=pctx.merge())
            l = jnp.mean((y - 1.0) ** 2)
            return l, (l, new)

        return jax.grad(f, has_aux=True)(params)

    if not spec.jit:
        return grad_fn, value_fn
    key = (spec.arch, spec.style)
    fns = JITS.get(key)
    if fns is None:
        jit_value = jax.jit(value_fn, static_argnums=2)
        fns = JITS[key] = (nnx.jit(grad_fn), jit_value)
    return fns


class Job:
    """The state of a training process."""

    def __init__(self, spec, seed, perm=None, abstract=False):
        self.spec = spec
        self.step = 0
        self.tx = txs(spec.tx)
        self.grad_fn, self.value_fn = step_functions(spec)
        self.history = []
        self.ctx = nnx.context(dropout=seed + 7, noise=seed + 8, flags=FLAGS)
        self.abstract = None
        if abstract:
            # the documented way to load: only the structure is made
            state, moduledef = jax.eval_shape(lambda: build(spec.arch, seed, perm).partition())
            self.abstract = (state, moduledef)
            self.model = None
            return
        self.model = build(spec.arch, seed, perm)
        self.start()

    def start(self):
        """Makes the parts of the job that belong to its style from the model."""
        spec = self.spec
        if spec.style == "train state":
            (params, others), moduledef = self.model.partition(nnx.Param, ...)
            self.ts = nnx.TrainState(moduledef, params=params, tx=self.tx, others=others)
            self.model = None
        elif spec.style == "functional":
            (self.params, self.others), self.moduledef = self.model.partition(nnx.Param, ...)
            self.opt = self.tx.init(self.params)
            self.model = None
        else:
            self.opt = self.tx.init(self.model.filter(nnx.Param))

    def one_step(self):
        spec = self.spec
        x = batch(spec.data, self.step)
        key = self.ctx.make_rng("noise")
        x = x + 0.0625 * jax.random.normal(key, x.shape)
        pctx = self.ctx.partition()
        if spec.style == "module":
            grads, loss = self.grad_fn(self.model, x, pctx)
            params = self.model.filter(nnx.Param)
            updates, opt = self.tx.update(grads, self.opt, params)
            self.model.update_state(optax.apply_updates(params, updates))
            self.opt = opt
            logs = None if spec.keep_log else self.model.pop_state(nnx.Intermediate)
        elif spec.style == "functional":
            grads, (loss, new) = self.value_fn(self.params, self.others, self.moduledef, x, pctx)
            logs, pure = new.pop_state(nnx.Intermediate)
            _, others = pure.filter(nnx.Param, lambda p, v: True)
            updates, opt = self.tx.update(grads, self.opt, self.params)
            params = optax.apply_updates(self.params, updates)
            self.params, self.others, self.opt = params, others, opt
        else:
            grads, (loss, new) = self.value_fn(self.ts.params, self.ts.others, self.ts.moduledef, x, pctx)
            logs, pure = new.pop_state(nnx.Intermediate)
            _, others = pure.filter(nnx.Param, lambda p, v: True)
            self.ts = self.ts.apply_gradients(grads, others=others)
        self.history.append((self.step, np.asarray(loss).tobytes(), np.asarray(key).tobytes(),
                             {} if logs is None else canon_state(logs)))
        self.step += 1
        if self.step % spec.fork_every == 0:
            # the context goes on as a fork of itself; a checkpoint stores that fork
            self.fork = self.ctx.partition()
            self.ctx = self.fork.merge()

    # ---- results
    def final(self):
        spec = self.spec
        if spec.style == "module":
            state, opt, step = self.model.get_state(), self.opt, None
            self.model.get_module_def()
        elif spec.style == "functional":
            state, opt, step = self.params | self.others, self.opt, None
        else:
            state, opt, step = self.ts.params | self.ts.others, self.ts.opt_state, canon(self.ts.step)
        return dict(step=self.step, state=canon_state(state), opt=canon(opt), ts=step,
                    keys=[canon(self.ctx.make_rng(n)) for n in ("noise", "dropout", "noise")],
                    flags=sorted((k, self.ctx.get_flag(k)) for k in FLAGS))


def canon(tree):
    return [(str(np.asarray(a).dtype), np.asarray(a).shape, np.asarray(a).tobytes())
            for a in jax.tree_util.tree_leaves(tree)]


def canon_state(state):
    return {p: (type(v).__name__, sorted((k, repr(m)) for k, m in vars(v).items() if k != "value")
                if isinstance(v, nnx.Container) else None, canon(v)) for p, v in state.items()}


# ------------------------------------------------------------------ checkpoints
def arrays(tree):
    return [np.array(a) for a in jax.tree_util.tree_leaves(tree)]


def by_path(state):
    """{path: array}: what a user who stores variables by name keeps."""
    return {p: np.array(v.value if isinstance(v, nnx.Container) else v) for p, v in state.items()}


FORMS = {
    "module": ["by path", "leaves", "pickled state", "filters", "pickled states", "memory", "mutable dict", "pickled module"],
    "functional": ["by path", "leaves", "pickled state", "pickled states", "memory"],
    "train state": ["state dict", "state dict", "leaves", "memory", "pickled state"],
}


def save(job, form, live):
    """A checkpoint as bytes; `live` keeps what the in-memory form refers to."""
    spec = job.spec
    keys, cdef = job.fork
    c = dict(form=form, step=job.step, keys={n: np.array(k) for n, k in keys.items()}, cdef=cdef)
    if spec.style == "module":
        state, opt = job.model.get_state(), job.opt
    elif spec.style == "functional":
        state, opt = nnx.State.merge(job.params, job.others), job.opt
    else:
        state, opt = nnx.State.merge(job.ts.params, job.ts.others), job.ts.opt_state
        c["ts step"] = np.array(job.ts.step)
    c["opt"] = arrays(opt)
    if form == "by path":
        c["state"] = by_path(state)
    elif form == "leaves":
        c["state"] = arrays(state)
    elif form == "pickled state":
        c["state"] = state
    elif form == "pickled states":
        # several states, as partition gives them
        c["state"] = job.model.partition(nnx.BatchStat, nnx.Param, ...).states if spec.style == "module" else \
            (job.params, job.others)
    elif form == "filters":
        a, b, rest = job.model.filter(nnx.Param, nnx.BatchStat, lambda p, v: True)
        c["state"] = [by_path(s) for s in (rest, a, b)]
    elif form == "pickled module":
        try:
            pickle.dumps(job.model)
        except (AttributeError, pickle.PicklingError):
            # initializers of library layers are local functions
            return save(job, "pickled state", live)
        c["state"], c["ctx"] = job.model, job.ctx
    elif form == "mutable dict":
        c["state"] = {p: np.array(v.value) for p, v in job.model.mutable_state_dict().items()}
    elif form == "state dict":
        sd = serialization.to_state_dict(job.ts)
        c["state"] = {k: jax.tree_map(np.array, v) for k, v in sd.items()}
    else:
        n = c["state"] = len(live)
        live.append(job.ts if spec.style == "train state" else
                    (job.params, job.others, job.opt) if spec.style == "functional" else
                    (job.model.partition(nnx.Param, ...), job.opt))
        del n
    return pickle.dumps(c)


def filled(fresh, by):
    """The fresh state with the stored arrays under its paths."""
    if sorted(by) != list(fresh):
        raise Violation("paths of a fresh model differ", f"{list(fresh)} instead of {sorted(by)}")
    return nnx.State({p: v.replace(value=jnp.asarray(by[p])) if isinstance(v, nnx.Container) else jnp.asarray(by[p])
                      for p, v in fresh.items()})


def unleaf(tree, leaves):
    d = jax.tree_util.tree_structure(tree)
    if d.num_leaves != len(leaves):
        raise Violation("leaves of a fresh model differ", f"{d.num_leaves} instead of {len(leaves)}")
    return jax.tree_util.tree_unflatten(d, [jnp.asarray(a) for a in leaves])


def load(job, data, live, how):
    """Puts a checkpoint into a freshly built job."""
    c = pickle.loads(data)
    spec, form = job.spec, c["form"]
    stored = c["state"]
    job.step = c["step"]
    job.fork = None
    job.ctx = c["cdef"].merge({n: jnp.asarray(k) for n, k in c["keys"].items()})
    if form == "pickled module":
        job.model, job.ctx = stored, c["ctx"]
        set_opt(job, c)
        return
    if job.abstract is not None:
        abstract, moduledef = job.abstract
        state = unleaf(abstract, stored) if form == "leaves" else filled_abstract(abstract, stored)
        job.model = moduledef.merge(state)
        job.start()
        set_opt(job, c)
        return
    if form == "memory":
        kept = live[stored]
        if spec.style == "train state":
            job.ts = job.ts.replace(params=kept.params, others=kept.others, opt_state=kept.opt_state, step=kept.step)
        elif spec.style == "functional":
            job.params, job.others, job.opt = kept
        else:
            if how:
                job.model = kept[0].merge()
            else:
                job.model.update_state(kept[0])
            job.opt = kept[1]
        return
    if form == "state dict":
        job.ts = serialization.from_state_dict(job.ts, {k: jax.tree_map(jnp.asarray, v) for k, v in stored.items()})
        return
    if spec.style == "module":
        if form == "mutable dict":
            d = job.model.mutable_state_dict()
            if sorted(d) != sorted(stored):
                raise Violation("paths of a fresh model differ", f"{sorted(d)} instead of {sorted(stored)}")
            for p in (sorted(stored) if how else list(reversed(list(stored)))):
                d[p].value = jnp.asarray(stored[p])
        else:
            fresh = job.model.get_state()
            if form == "by path":
                state = filled(fresh, stored)
            elif form == "leaves":
                state = unleaf(fresh, stored)
            elif form == "filters":
                parts = job.model.partition(nnx.Param, nnx.BatchStat, ...).states
                rest, a, b = stored
                state = tuple(filled(f, s) for f, s in zip(parts, (a, b, rest)))
            else:
                state = jax.tree_map(jnp.asarray, stored)
            if how:
                job.model = job.model.get_module_def().merge(*(state if isinstance(state, tuple) else (state,)))
            else:
                job.model.update_state(state)
        set_opt(job, c)
        return
    if form == "pickled states":
        job.params, job.others = jax.tree_map(jnp.asarray, stored)
        set_opt(job, c)
        return
    params, others = (job.ts.params, job.ts.others) if spec.style == "train state" else (job.params, job.others)
    fresh = nnx.State.merge(params, others)
    state = filled(fresh, stored) if form == "by path" else unleaf(fresh, stored) if form == "leaves" else \
        jax.tree_map(jnp.asarray, stored)
    params, others = state.partition(nnx.Param, ...)
    if spec.style == "train state":
        job.ts = job.ts.replace(params=params, others=others)
    else:
        job.params, job.others = params, others
    set_opt(job, c)


def filled_abstract(abstract, stored):
    if sorted(stored) != list(abstract):
        raise Violation("paths of a fresh model differ", f"{list(abstract)} instead of {sorted(stored)}")
    return nnx.State({p: v.replace(value=jnp.asarray(stored[p])) if isinstance(v, nnx.Container)
                      else jnp.asarray(stored[p]) for p, v in abstract.items()})


def set_opt(job, c):
    if job.spec.style == "train state":
        job.ts = job.ts.replace(opt_state=unleaf(job.ts.opt_state, c["opt"]), step=jnp.asarray(c["ts step"]))
    else:
        job.opt = unleaf(job.opt, c["opt"])


# ------------------------------------------------------------------ the disk
class Disk:
    """Files with a write cache: what is not synced may be lost or torn by a crash."""

    def __init__(self, r):
        self.r = r
        self.durable, self.cache, self.names = {}, {}, {}
        self.full = 0

    def write(self, name, data):
        chunk = 1 + len(data) // 6
        for i in range(0, len(data), chunk):
            if self.full:
                self.full -= 1
                if not self.full:
                    self.r.fault("disk full")
                    raise OSError("no space left on device")
            self.cache[name] = self.cache.get(name, b"") + data[i:i + chunk]
            if Disk.kill:
                Disk.kill -= 1
                if not Disk.kill:
                    raise Kill

    kill = 0

    def sync(self, name):
        self.durable[name] = self.cache[name]

    def rename(self, a, b):
        # the rename itself becomes durable later
        self.cache[b] = self.cache.pop(a)
        self.names[a] = b

    def sync_dir(self):
        for a, b in self.names.items():
            if a in self.durable:
                self.durable[b] = self.durable.pop(a)
        self.names.clear()

    def truncate(self, name):
        self.cache[name] = b""

    def crash(self):
        r = self.r
        for name in sorted(self.cache):
            data = self.cache[name]
            if self.durable.get(name) == data or name in self.names.values():
                continue
            c = r.draw(3)
            if c == 1 and data:
                self.durable[name] = data[:r.draw(len(data))]
                r.fault("torn write")
            elif c == 2:
                self.durable[name] = data
            else:
                r.fault("lost write")
        if self.names:
            if r.chance(500):
                self.sync_dir()
            else:
                r.fault("lost rename")
        self.cache = dict(self.durable)
        self.names.clear()
        self.full = 0

    def read(self, name):
        return self.cache.get(name)


def frame(data):
    return len(data).to_bytes(8, "big") + zlib.crc32(data).to_bytes(4, "big") + data


def unframe(blob):
    if blob is None or len(blob) < 12:
        return None
    data = blob[12:]
    if len(data) != int.from_bytes(blob[:8], "big") or zlib.crc32(data) != int.from_bytes(blob[8:12], "big"):
        return None
    return data


def store(disk, protocol, n, data):
    blob = frame(data)
    if protocol == "rename":
        disk.truncate("ckpt.tmp")
        disk.write("ckpt.tmp", blob)
        disk.sync("ckpt.tmp")
        disk.rename("ckpt.tmp", "ckpt")
        disk.sync_dir()
        return
    name = f"slot{n % 2}"
    disk.truncate(name)
    disk.write(name, blob)
    disk.sync(name)


def newest(disk):
    best = None
    for name in ("ckpt", "slot0", "slot1"):
        data = unframe(disk.read(name))
        if data is not None:
            step = pickle.loads(data)["step"]
            if best is None or step > best[0]:
                best = (step, data)
    return best[1] if best else None


# ------------------------------------------------------------------ running jobs
def uninterrupted(spec):
    job = Job(spec, spec.seed)
    while job.step < spec.steps:
        job.one_step()
    return job.history, job.final()


class Config:
    """How this process of the job behaves."""

    def __init__(self, r, spec, first):
        self.seed = spec.seed if first else 1000 + r.draw(5)
        self.perm = r.draw(5) if r.chance(500) else None
        forms = FORMS[spec.style]
        if spec.keep_log:
            forms = ["pickled state", "pickled states", "memory"]
        self.form = r.pick(forms)
        self.how = r.chance(500)
        self.protocol = r.pick(["rename", "slots"])
        self.every = r.pick([1, 1, 1, 2])
        # step, place: a layer of the forward pass, the disk, the pickler
        # the further on, the likelier: restarts from scratch are the simplest case
        k = max(r.draw(spec.steps + 1), r.draw(spec.steps + 1))
        self.kill_step = k if r.chance(850 if first else 500) else None
        self.kill_at = r.pick(["between", "layer", "disk", "disk", "save"])
        self.kill_n = 1 + r.draw(6)
        self.full = 1 + r.draw(3) if r.chance(150) else 0
        self.fail_forward = r.draw(spec.steps) if r.chance(200) else None


def recover(r, spec, cfg, disk, live, again):
    """The job of a process that has just started."""
    data = newest(disk) if again else None
    if data is None:
        # nothing durable: training starts over as it did the first time
        return Job(spec, spec.seed, cfg.perm), "from scratch"
    form = pickle.loads(data)["form"]
    abstract = form in ("leaves", "by path") and spec.style == "module" and cfg.how and cfg.kill_n % 2 == 0
    job = Job(spec, cfg.seed, cfg.perm, abstract)
    load(job, data, live, cfg.how)
    return job, form + (" abstract" if abstract else "")


def process(r, spec, cfg, disk, live, again, saves):
    """One life of the job; True if it finished."""
    job, origin = recover(r, spec, cfg, disk, live, again)
    start = job.step
    r.ev("start", origin, f"at {start}", f"seed {cfg.seed} perm {cfg.perm} {cfg.form} {cfg.protocol}/{cfg.every}")
    r.probe(f"restored: {origin}" if again else "first start")
    killed = False
    try:
        while job.step < spec.steps:
            here = cfg.kill_step == job.step
            if here and cfg.kill_at == "between":
                raise Kill
            if cfg.fail_forward == job.step and spec.style == "module" and not spec.jit:
                bad_step(r, job)
            Point.left = cfg.kill_n if here and cfg.kill_at == "layer" and not spec.jit else 0
            job.one_step()
            Point.left = 0
            if job.step % spec.fork_every == 0 and job.step % cfg.every == 0 and job.step < spec.steps:
                disk.full, cfg.full = cfg.full, 0
                after = cfg.kill_step is not None and job.step >= cfg.kill_step
                Disk.kill = cfg.kill_n if after and cfg.kill_at == "disk" else 0
                if cfg.kill_at == "save" and after:
                    failing_save(r, job, cfg.form, live)
                try:
                    data = save(job, cfg.form, live)
                    store(disk, cfg.protocol, saves[0], data)
                    saves[0] += 1
                    r.probe(f"saved: {cfg.form}")
                except OSError:
                    r.ev("save failed")
                finally:
                    Disk.kill = 0
                    disk.full = 0
    except Kill:
        killed = True
    finally:
        Point.left = 0
    if killed:
        r.fault(f"killed: {cfg.kill_at}")
        r.ev("killed", job.step, cfg.kill_at)
        disk.crash()
    return job, start, not killed


def bad_step(r, job):
    """A step fails by a bad batch; the job catches it and repeats the step."""
    before = canon_state(job.model.get_state())
    ok, e = r.attempt(job.grad_fn, job.model, jnp.zeros((3, D + 1)), nnx.context(dropout=1, noise=1, flags=FLAGS)
                      .partition())
    r.fault("a training step fails")
    r.check(not ok, "bad batch accepted", "")
    after = canon_state(job.model.get_state())
    r.check(before == after, "failed step changed the model", lambda: diff(before, after))


class Unpicklable:
    def __reduce__(self):
        raise Injected("pickle")


def failing_save(r, job, form, live):
    """Serialising fails half-way; training has to go on as if it had not been tried."""
    keep = len(live)
    data = save(job, form, live)
    del live[keep:]
    buf = io.BytesIO()
    ok, _ = r.attempt(pickle.dump, [data, job.fork, Unpicklable()], buf)
    r.check(not ok, "pickling went through", "")
    r.fault("serialising fails")


def diff(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted({*a, *b}):
            if k not in a or k not in b:
                return f"{path}/{k} only in {'the first' if k in a else 'the second'}"
            d = diff(a[k], b[k], f"{path}/{k}")
            if d:
                return d
        return None
    if a == b:
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f"{path}/{i}")
            if d:
                return d
    return f"{path}: {show(a)} instead of {show(b)}"


def show(x):
    return np.frombuffer(x, np.float32).tolist() if isinstance(x, bytes) and len(x) % 4 == 0 else repr(x)[:200]


def compare(r, what, job_history, final, want_history, want, start):
    got = {h[0]: h for h in job_history}
    for h in want_history:
        if h[0] in got and got[h[0]] != h:
            raise Violation(f"{what}: a step differs", f"step {h[0]}: {diff(got[h[0]], h)}")
    for k in want:
        if final[k] != want[k]:
            raise Violation(f"{what}: {k} differs", f"from step {start}: {diff(final[k], want[k])}")


def remote_resume(spec, data, cfg):
    """Runs in the peer process: restore and finish."""
    job = Job(spec, cfg.seed, cfg.perm)
    load(job, data, [], cfg.how)
    while job.step < spec.steps:
        job.one_step()
    return job.history, job.final()


def run(r):
    spec = Spec(r)
    r.ev(repr(spec), f"seed {spec.seed}")
    r.probe(f"style: {spec.style}{' jitted' if spec.jit else ''}")
    want_history, want = r.must("uninterrupted", uninterrupted, spec)
    disk, live, saves = Disk(r), [], [0]
    lives = 0
    done = False
    while not done:
        cfg = Config(r, spec, lives == 0)
        if lives >= 4:
            cfg.kill_step = None  # the faults stop
        try:
            job, start, done = process(r, spec, cfg, disk, live, lives > 0, saves)
        except (Violation, Injected, InjectedInterrupt):
            raise
        except Exception as e:  # noqa: BLE001
            from dst.core import short_tb

            raise Violation(f"job failed:{type(e).__name__}", f"{e}\n{short_tb(e)}") from e
        lives += 1
        r.step(len(job.history))
        check = {h[0]: h for h in want_history}
        for h in job.history:
            if check[h[0]] != h:
                raise Violation("resumed: a step differs" if lives > 1 else "saving: a step differs",
                                f"step {h[0]} of life {lives}: {diff(h, check[h[0]])}")
    compare(r, "resumed" if lives > 1 else "saving", job.history, job.final(), want_history, want, start)
    r.ev("finished", lives)
    # the last durable checkpoint, taken up in another process with another hash seed
    data = newest(disk)
    if data is not None and pickle.loads(data)["form"] != "memory" and r.chance(250):
        cfg = Config(r, spec, False)
        try:
            history, final = peer.call("dst.props.c01", "remote_resume", spec, data, cfg)
        except peer.PeerFailed as e:
            raise Violation("other process failed", str(e)) from e
        compare(r, "other process", history, final, want_history, want, pickle.loads(data)["step"])
        r.fault("resumed in another process")
        r.ev("other process")
    r.nontrivial = saves[0] > 0
