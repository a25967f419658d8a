"""C06: histories of draws, forks and transformed calls on RNG contexts.

A run executes a random program over contexts: single draws and bursts, forks whose
parent and child go on interleaved, calls through nnx.jit (also repeated, failing,
nested), nnx.remat, nnx.scan and nnx.Scan, in one or several simulated threads. The
keys handed out are compared with a replay of each stream on its own: one stream, one
thread, one lineage after the other, jitted calls executed directly, sometimes in
another process with another hash seed. Within a stream no key may come twice.
"""
import copy
import pickle

import jax
import jax.numpy as jnp
import numpy as np

from dst import peer, sched
from dst.core import INJECTED, Injected, InjectedInterrupt, Violation
from dst.model import nnx
from nnx import contextlib

STREAMS = ["params", "noise", "dropout"]  # not in alphabetical order


# ------------------------------------------------------------------ programs: plain picklable data
def gen_program(r, streams, depth=0, budget=None):
    """[(handle, op, ...)]: handle 0 is the given context, a fork adds a handle."""
    ops, handles = [], 1
    n = 2 + r.draw(7) if depth == 0 else 1 + r.draw(3)
    for _ in range(n):
        h = r.draw(handles)
        k = r.weighted([("draw", 6), ("burst", 3), ("fork", 4), ("jit", 3), ("again", 3), ("remat", 1), ("scan", 1),
                        ("Scan", 1), ("fail", 2), ("bad", 1), ("refused", 2), ("remerge", 2), ("copy", 1), ("double", 1)])
        if depth and k in ("again", "fail", "scan", "Scan", "bad", "refused", "double") or depth > 1 and k in ("jit", "remat"):
            k = "draw"
        if k in ("scan", "Scan", "jit", "remat") and not r.chance(600):
            k = "fork"
        if k == "draw":
            ops.append((h, "draw", r.pick(streams)))
        elif k == "burst":
            sizes = [2, 3, 9, 10, 11, 12, 25, 101] if depth == 0 else [2, 3, 10, 11, 12]
            if depth == 0 and r.chance(30):
                sizes = [260, 300, 1100]
            ops.append((h, "burst", r.pick(streams), r.pick(sizes)))
        elif k == "fork":
            ops.append((h, "fork", handles, r.chance(500)))
            handles += 1
        elif k == "jit" or k == "remat":
            ops.append((h, k, gen_program(r, streams, depth + 1)))
        elif k == "again":
            prev = [i for i, o in enumerate(ops) if o[1] == "jit"]
            if prev:
                ops.append((h, "again", r.pick(prev)))
            else:
                ops.append((h, "draw", r.pick(streams)))
        elif k in ("scan", "Scan"):
            split = tuple(s for s in streams if r.chance(600))
            length = 1 + r.draw(4)
            body = [(0, "draw", r.pick(streams)) for _ in range(1 + r.draw(2))]
            if r.chance(300):
                body.insert(r.draw(2), (0, "fork", 1, True))
                body.append((1, "draw", r.pick(streams)))
            ops.append((h, k, body, split, length, r.pick([1, 2]), r.chance(300)))
        elif k == "fail":
            ops.append((h, "fail", r.pick(["jit", "remat"]), r.pick(streams), r.draw(3), r.pick(["exception", "interrupt", "unknown"])))
        elif k == "refused":
            ops.append((h, k, r.pick(streams), r.draw(3), r.pick(["jax.jit", "nnx.jit", "nnx.grad"])))
        elif k == "remerge":
            ops.append((h, k, r.pick(streams), 1 + r.draw(3)))
        elif k == "copy":
            ops.append((h, k, r.pick(streams)))
        elif k == "double":
            ops.append((h, k, r.pick(streams), 1 + r.draw(3), r.pick(["deepcopy", "pickle"]), r.chance(500)))
        else:
            ops.append((h, "bad"))
    return ops


class Mod(nnx.Module):
    def __init__(self):
        self.p = nnx.Param(np.float32(1.0))


class Exec:
    """Runs programs on real contexts. Results: {tag: key or keys of a scan}."""

    def __init__(self, only=None, direct=False, r=None):
        self.only = only      # replay of this stream alone
        self.direct = direct  # jitted and rematerialised calls are forks
        self.r = r
        self.fns = {}

    def wants(self, stream):
        return self.only is None or stream == self.only

    def run(self, ops, ctx, tag="", root=None):
        """In the order of the program (real execution)."""
        handles, lazy, out = {0: ctx}, {}, {}
        forked = {0: root}
        for i, op in enumerate(ops):
            h = op[0]
            if h in lazy:
                handles[h] = lazy.pop(h).merge()
            self.one(i, op, ops, handles[h], out, tag, handles, lazy, forked)
        return out

    def run_apart(self, ops, ctx, tag=""):
        """One context after the other (reference)."""
        out = {}
        forked = {0: None}

        def go(h, c):
            pures = []
            for i, op in enumerate(ops):
                if op[0] == h:
                    self.one(i, op, ops, c, out, tag, None, pures, forked)
            for child, p in pures:
                go(child, p.merge())

        go(0, ctx)
        return out

    def one(self, i, op, ops, ctx, out, tag, handles, lazy, forked):
        k = op[1]
        t = f"{tag}{i}"
        if k == "draw":
            if self.wants(op[2]):
                out[f"{t}:{op[2]}"] = ctx.make_rng(op[2])
        elif k == "burst":
            if self.wants(op[2]):
                for j in range(op[3]):
                    out[f"{t}.{j}:{op[2]}"] = ctx.make_rng(op[2])
        elif k == "fork":
            p = forked[op[2]] = ctx.partition()
            if self.direct:
                forked[op[2]] = copy.deepcopy(p)  # never merged itself
            if handles is None:
                lazy.append((op[2], p))
            elif op[3]:
                handles[op[2]] = p.merge()
            else:
                lazy[op[2]] = p
        elif k in ("jit", "again", "remat"):
            j = op[2] if k == "again" else i
            body = ops[j][2]
            if self.direct:
                res = self.body(body, ctx.partition().merge())
            else:
                key = id(body)
                f = self.fns.get(key)
                if f is None:
                    def f(m, x, *, ctx, body=body):
                        return self.body(body, ctx)

                    f = self.fns[key] = nnx.jit(f) if k != "remat" else nnx.remat(f)
                res = f(self.module(), np.float32(1), ctx=ctx)
            out.update({f"{t}/{n}": v for n, v in res.items()})
        elif k == "scan":
            _, _, body, split, length, unroll, reverse = op

            def step(m, c, x, *, ctx):
                return c, self.body(body, ctx)

            _, res = nnx.scan(step, split_rngs=split, length=length, unroll=unroll, reverse=reverse)(
                self.module(), np.float32(0), jnp.zeros((length,)), ctx=ctx)
            out.update({f"{t}*{n}": v for n, v in res.items()})
        elif k == "Scan":
            _, _, body, split, length, _, _ = op

            class Drawn(nnx.Module):
                def __init__(m, *, ctx):
                    for n, v in self.body(body, ctx).items():
                        setattr(m, "k" + n, nnx.Param(v))

            m = nnx.Scan(Drawn, variable_axes={nnx.Param: 0}, split_rngs=split, length=length)(ctx=ctx)
            for n, v in vars(m.scan_module).items():
                if isinstance(v, nnx.Param):
                    out[f"{t}*{n[1:]}"] = v.value
        elif k == "fail":
            self.fail(op, ctx)
        elif k == "refused":
            if not self.direct:
                self.refused(op, ctx)
        elif k == "remerge":
            # the fork this context came from, once more: again the keys from its beginning
            if forked[op[0]] is not None and self.wants(op[2]):
                p = forked[op[0]]
                other = (copy.deepcopy(p) if self.direct else p).merge()
                for j in range(op[3]):
                    out[f"{t}!{j}:{op[2]}"] = other.make_rng(op[2])
        elif k == "copy":
            if self.wants(op[2]):
                out[f"{t}:{op[2]}"] = ctx.copy().make_rng(op[2])
        elif k == "double":
            if self.wants(op[2]):
                self.double(op, ctx, out, t)
        elif k == "bad":
            if ctx.has_rng("unknown") or not all(ctx.has_rng(n) for n in (self.only and [self.only] or [])):
                raise Violation("has_rng gives a wrong answer", str(self.only))
            try:
                ctx.make_rng("unknown")
            except ValueError:
                if self.r is not None:
                    self.r.fault("draw from an unknown stream")
            else:
                raise Violation("unknown stream was accepted")

    def double(self, op, ctx, out, t):
        """A deep copy goes on like the context itself, each on its own."""
        _, _, stream, n, how, first = op
        if self.direct:
            other = None
        else:
            other = copy.deepcopy(ctx) if how == "deepcopy" else pickle.loads(pickle.dumps(ctx))
        theirs = [other.make_rng(stream) for _ in range(n)] if other is not None and first else None
        mine = [ctx.make_rng(stream) for _ in range(n)]
        for j, k in enumerate(mine):
            out[f"{t}.{j}:{stream}"] = k
        if other is not None:
            theirs = theirs or [other.make_rng(stream) for _ in range(n)]
            if not all(np.array_equal(a, b) for a, b in zip(mine, theirs)):
                raise Violation("a copy and its context influence each other", how)

    def fail(self, op, ctx):
        _, _, kind, stream, n, how = op

        def f(m, x, *, ctx):
            for _ in range(n):
                if self.wants(stream):
                    ctx.make_rng(stream)
            if how == "unknown":
                ctx.make_rng("unknown")
            raise {"exception": Injected, "interrupt": InjectedInterrupt}[how]("user function")

        if self.direct:
            ctx.partition()
            return
        t = nnx.jit(f) if kind == "jit" else nnx.remat(f)
        try:
            t(self.module(), np.float32(1), ctx=ctx)
        except (*INJECTED, ValueError) as e:
            if self.r is not None:
                self.r.fault(f"{kind} call fails by {type(e).__name__}")
        else:
            raise Violation("failing call returned")

    def refused(self, op, outer):
        """Draws and forks of a context from inside a transform it was not given to."""
        _, _, stream, what, how = op

        def attempt():
            try:
                if what == 0:
                    outer.make_rng(stream)
                elif what == 1:
                    outer.partition()
                else:
                    nnx.jit(lambda m, x, *, ctx: x)(Mod(), np.float32(1), ctx=outer)
            except nnx.TraceContextError:
                if self.r is not None:
                    self.r.fault(f"{['draw', 'fork', 'call'][what]} refused inside {how}")
            else:
                raise Violation("context of an outer level was accepted", f"{what} in {how}")

        def f(x):
            attempt()
            return x

        x = np.float32(1)
        if how == "jax.jit":
            jax.jit(f)(x)
        elif how == "nnx.jit":
            nnx.jit(lambda m, x: f(x))(self.module(), x)
        else:
            nnx.grad(lambda m, x: f(m.p * x))(self.module(), x)

    def body(self, ops, ctx):
        return self.run_apart(ops, ctx) if self.direct else self.run(ops, ctx)

    def module(self):
        return Mod()


def make_context(seeds, how):
    """seeds: {stream: int}; how each stream is given."""
    kw = {}
    for n, s in seeds.items():
        h = how.get(n, 0)
        kw[n] = s if h == 0 else jax.random.PRNGKey(s) if h == 1 else contextlib.RngStream(jax.random.PRNGKey(s))
    return nnx.context(**kw)


def replay_stream(stream, seed, ops):
    """The keys of one stream on its own."""
    ex = Exec(only=stream, direct=True)
    out = ex.run_apart(ops, make_context({stream: seed}, {}))
    return {n: np.asarray(v) for n, v in out.items()}


# ------------------------------------------------------------------ the run
def uses(ops):
    out = set()
    for o in ops:
        if o[1] in ("draw", "burst", "remerge", "copy", "double"):
            out.add(o[2])
        elif o[1] == "fail":
            out.add(o[3])
        elif o[1] in ("jit", "remat", "scan", "Scan"):
            out |= uses(o[2])
    return out


def restrict(ops, streams):
    """The same program for a context that has these streams only."""
    def s(x):
        return x if x in streams else streams[0]

    out = []
    for o in ops:
        if o[1] in ("draw", "burst", "remerge", "copy", "refused", "double"):
            o = (o[0], o[1], s(o[2]), *o[3:])
        elif o[1] == "fail":
            o = (*o[:3], s(o[3]), *o[4:])
        elif o[1] in ("jit", "remat"):
            o = (*o[:2], restrict(o[2], streams))
        elif o[1] in ("scan", "Scan"):
            o = (*o[:2], restrict(o[2], streams), tuple(x for x in o[3] if x in streams), *o[4:])
        out.append(o)
    return out


class Job:
    def __init__(self, name, ops, streams, seeds, how, root=None):
        self.name, self.ops, self.streams, self.seeds, self.how = name, ops, streams, seeds, how
        self.root = root  # (pure context, program prefix) of a context forked elsewhere
        self.keys = None


def run(r):
    n_threads = 1 if r.chance(600) else 2 + r.draw(2)
    pool = []
    jobs = []
    for i in range(n_threads):
        for j in range(1 + (r.draw(2) if n_threads == 1 else 0)):
            streams = STREAMS[: 1 + r.draw(3)]
            if pool and r.chance(500):
                ops = restrict(r.pick(pool), streams)  # the same history elsewhere
            else:
                ops = gen_program(r, streams)
                pool.append(ops)
            base = r.draw(6)
            seeds = {s: base + (k if r.chance(700) else 0) for k, s in enumerate(streams)}
            how = {s: r.draw(3) for s in streams}
            jobs.append(Job(f"t{i}.{j}", ops, streams, seeds, how))
            r.ev("job", f"t{i}.{j}", repr(seeds), repr(ops))
    shared = None
    if n_threads > 1 and r.chance(500):
        # one context forked to all threads
        shared = make_context(jobs[0].seeds, jobs[0].how)
        for jb in jobs:
            jb.ops = restrict(jb.ops, jobs[0].streams)
            jb.streams, jb.seeds = jobs[0].streams, jobs[0].seeds
            jb.root = shared.partition()
        r.probe("context forked to several threads")

    def do(jb):
        def body():
            ctx = jb.root.merge() if jb.root is not None else make_context(jb.seeds, jb.how)
            ex = Exec(r=r)
            jb.keys = {n: np.asarray(v) for n, v in ex.run(jb.ops, ctx, root=jb.root).items()}
            r.step(len(jb.ops))

        return body

    if n_threads == 1:
        for jb in jobs:
            do(jb)()
            r.ran(jb.name)
    else:
        sched.threads(r, [(jb.name, do(jb)) for jb in jobs], max_points=8000)
    total = 0
    for k, jb in enumerate(jobs):
        total += len(jb.keys)
        for n in sorted(jb.keys):
            r.ev(jb.name, n, jb.keys[n].tolist() if jb.keys[n].ndim == 1 else "rows")
    # every key is what its own stream and lineage gives
    for k, jb in enumerate(jobs):
        for s in sorted(uses(jb.ops)):
            ops = jb.ops
            if shared is not None:
                ops = [(0, "fork", 1 + i, True) for i in range(len(jobs))] + shift(jb.ops, k, len(jobs))
            if r.chance(60):
                r.probe("replayed in another process")
                want = peer.call("dst.props.c06", "replay_stream", s, jb.seeds[s], ops)
            else:
                want = replay_stream(s, jb.seeds[s], ops)
            got = {n: v for n, v in jb.keys.items() if n.endswith(":" + s)}
            if shared is not None:
                off = len(jobs)
                want = {unshift(n, off): v for n, v in want.items()}
            r.check(set(want) == set(got), "keys drawn", lambda: f"{sorted(set(want) ^ set(got))}")
            for n in sorted(want):
                r.check(np.array_equal(want[n], got[n]), "key differs from its own lineage",
                        lambda: f"{jb.name} {n} (stream {s}): {got[n].tolist()} instead of {want[n].tolist()}")
    # no key twice
    groups = [jobs] if shared is not None else [[jb] for jb in jobs]
    for g in groups:
        seen = {}
        for jb in g:
            for n in sorted(jb.keys):
                if "!" in n:
                    continue  # repeated on purpose
                s = n.rsplit(":", 1)[1]
                rows = jb.keys[n].reshape(-1, jb.keys[n].shape[-1])
                if rows.shape[0] > 1 or jb.keys[n].ndim > 1:
                    split = jb.ops[int(n.split("*")[0])][3]
                    if s not in split:
                        r.check(bool((rows == rows[:1]).all()), "stream that is not split differs per step", n)
                        rows = rows[:1]
                for i, row in enumerate(rows):
                    key = (s, row.tobytes())
                    r.check(key not in seen, "key handed out twice", lambda: f"{jb.name} {n}[{i}] and {seen[key]}")
                    seen[key] = f"{jb.name} {n}[{i}]"
    r.probes["keys drawn"] += total
    r.nontrivial = total >= 4
    r.state(len(jobs), shared is not None, tuple(sorted({o[1] for jb in jobs for o in jb.ops})))


def shift(ops, k, off):
    """The program of the k-th fork of a context, after off forks."""
    out = []
    for o in ops:
        h = 1 + k if o[0] == 0 else o[0] + off
        if o[1] == "fork":
            o = (h, "fork", o[2] + off, o[3])
        elif o[1] == "again":
            o = (h, "again", o[2] + off)
        else:
            o = (h, *o[1:])
        out.append(o)
    return out


def unshift(n, off):
    i = 0
    while i < len(n) and n[i].isdigit():
        i += 1
    return f"{int(n[:i]) - off}{n[i:]}"
