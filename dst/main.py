"""Search driver: `python -m dst.main C13` explores, `--replay FILE` replays.

Exit 0: every simulated run satisfied the property. Exit 1 with a VIOLATION
line: a run broke it and its minimised replay reproduces it in a fresh process.
Exit 2: the simulator itself failed.
"""
import argparse
import gc
import importlib
import json
import os
import subprocess
import sys
import time
from collections import Counter

from dst import env
from dst.core import HarnessError, Run, Violation, short_tb, touches_sut

VERIF = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
OUT = os.environ.get("DST_OUT", os.path.join(VERIF, ".out"))
EVIDENCE = os.environ.get("DST_EVIDENCE", os.path.join(VERIF, "evidence"))
KNOWN = os.path.join(VERIF, "known_findings.json")


def load_prop(pid):
    env.load()
    return importlib.import_module(f"dst.props.{pid.lower()}")


def execute(prop, seed=None, streams=None):
    """One simulated run -> (Run, Violation or None)."""
    run = Run(prop, seed=seed, streams=streams)
    gc.disable()
    try:
        try:
            prop.run(run)
            return run, None
        except Violation as v:
            return run, v
        except HarnessError:
            raise
        except BaseException as e:  # noqa: BLE001
            if isinstance(e, (MemoryError, KeyboardInterrupt)):
                raise
            if touches_sut(e):
                return run, Violation(f"uncaught:{type(e).__name__}", f"{e} [{short_tb(e)}]")
            # the workload met values that the reference rules out (e.g. a path is missing)
            return run, Violation(f"unexpected:{type(e).__name__}", f"{e} [{short_tb(e)}]")
    finally:
        gc.enable()


def run_seed(seed, i):
    return f"{seed}/{i}"


def rss_mb():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * 4096 / 1e6


# --------------------------------------------------------------- worker
def worker(a):
    prop = load_prop(a.prop)
    import jax

    gc.collect()
    gc.freeze()
    agg = dict(runs=0, steps=0, switches=0, sim_time=0, replayed=0, mismatches=0)
    faults, probes = Counter(), Counter()
    digests, scheds, states = set(), set(), set()
    samples = []
    deadline = time.monotonic() + a.cap
    last = time.monotonic()
    known = known_kinds(a.prop)
    known_hits = Counter()
    mismatch = None
    cur = os.open(a.current, os.O_CREAT | os.O_WRONLY) if a.current else None
    for n, i in enumerate(range(a.start, a.total, a.stride)):
        if cur is not None:
            os.pwrite(cur, b"%12d" % i, 0)
        run, v = execute(prop, seed=run_seed(a.seed, i))
        if v is not None and v.kind in known:
            known_hits[v.kind] += 1
            v = None
        if v is not None:
            say(dict(t="violation", i=i, n=n, kind=v.kind, msg=v.msg[:2000],
                     streams={k: s.out for k, s in run.streams.items()}))
            return 0
        agg["runs"] += 1
        agg["steps"] += run.steps
        agg["switches"] += run.switches
        agg["sim_time"] += run.sim_time
        faults.update(run.faults)
        probes.update(run.probes)
        if run.nontrivial:
            digests.add(run.digest())
        if run.switches:
            scheds.add(run.schedule.hexdigest())
        states |= run.states
        if len(samples) < 1 and run.nontrivial and n > 1:
            samples.append(dict(run=i, seed=run_seed(a.seed, i), digest=run.digest(), events=run.events[:40]))
        if n % 40 == 7:
            # the same seed has to give the same execution
            again, _ = execute(prop, streams={k: s.out for k, s in run.streams.items()})
            agg["replayed"] += 1
            if again.digest() != run.digest():
                agg["mismatches"] += 1
                mismatch = i
        if n % 25 == 0:
            gc.collect()
        if n % 50 == 49 and rss_mb() > 2600:
            jax.clear_caches()
            gc.collect()
            probes["simulator: jax caches cleared for memory"] += 1
        now = time.monotonic()
        if now - last > 5:
            say(dict(t="alive", runs=agg["runs"]))
            last = now
        if now > deadline:
            agg["capped"] = True
            break
    say(dict(t="done", agg=agg, faults=faults, probes=probes, digests=sorted(digests),
             scheds=sorted(scheds), states=sorted(states), samples=samples, known=known_hits,
             mismatch=mismatch, rss=rss_mb()))
    return 0


def say(d):
    sys.stdout.write(json.dumps(d) + "\n")
    sys.stdout.flush()


def known_kinds(pid):
    try:
        with open(KNOWN) as f:
            return {e["kind"]: e for e in json.load(f)["findings"] if e["property"] == pid}
    except FileNotFoundError:
        return {}


LIFE = 200  # seconds without a finished run after which a worker counts as stuck


# --------------------------------------------------------------- subprocess helpers
def optimize(hashseed):
    return "1" if int(hashseed) % 4 == 3 else ""


def child_env(hashseed):
    e = dict(os.environ)
    e["PYTHONHASHSEED"] = str(hashseed)
    # some processes run without assertions, as with python -O
    e["PYTHONOPTIMIZE"] = optimize(hashseed)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONPATH"] = VERIF
    return e


def spawn(args, hashseed, **kw):
    return subprocess.Popen([sys.executable, "-m", "dst.main", *map(str, args)], cwd=VERIF,
                            env=child_env(hashseed), stdout=subprocess.PIPE, text=True, **kw)


def search(a):
    t0 = time.monotonic()
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(EVIDENCE, exist_ok=True)
    prop_meta = importlib.import_module("dst.budget").BUDGET[a.prop]
    total = a.runs or prop_meta[a.tier]
    cap = a.cap or (240 if a.tier == "quick" else 3000)
    nw = min(a.workers, max(1, total))
    procs = []
    errs = []
    for k in range(nw):
        err = open(os.path.join(OUT, f"{a.prop}-{os.getpid()}-w{k}.err"), "w+")
        errs.append(err)
        procs.append(spawn(["--worker", a.prop, "--start", k, "--stride", nw, "--total", total,
                            "--cap", cap, "--seed", a.seed, "--current", err.name + ".cur"],
                           hashseed=k, stderr=err))
    import selectors

    sel = selectors.DefaultSelector()
    for k, p in enumerate(procs):
        os.set_blocking(p.stdout.fileno(), False)
        sel.register(p.stdout, selectors.EVENT_READ, k)
    bufs = [""] * nw
    seen = [time.monotonic()] * nw
    done, violations = {}, []
    problem, stuck = None, None
    open_ = nw
    while open_ and not violations and problem is None:
        for key, _ in sel.select(timeout=2):
            k = key.data
            try:
                chunk = os.read(key.fileobj.fileno(), 1 << 20)
            except BlockingIOError:
                continue
            if not chunk:
                sel.unregister(key.fileobj)
                open_ -= 1
                procs[k].wait()
                if k not in done and not violations:
                    errs[k].seek(0)
                    problem = f"worker {k} ended with {procs[k].returncode}:\n{errs[k].read()[-4000:]}"
                    if procs[k].returncode < 0:
                        stuck = k
                continue
            seen[k] = time.monotonic()
            bufs[k] += chunk.decode()
            *lines, bufs[k] = bufs[k].split("\n")
            for line in lines:
                if not line.startswith("{"):
                    continue
                m = json.loads(line)
                if m["t"] == "done":
                    done[k] = m
                elif m["t"] == "violation":
                    m["worker"] = k
                    m["stride"] = nw
                    violations.append(m)
                    done[k] = None
        for k in range(nw):
            if k not in done and time.monotonic() - seen[k] > LIFE:
                problem = f"worker {k} gave no sign of life for {LIFE} s"
                stuck = k
    for p in procs:
        if p.poll() is None:
            p.kill()
        p.wait()
    if stuck is not None:
        with open(errs[stuck].name + ".cur") as f:
            stuck = stuck, int(f.read())
    for err in errs:
        err.close()
        for name in (err.name, err.name + ".cur"):
            if os.path.exists(name):
                os.unlink(name)
    if violations:
        return report(a, violations[0], t0)
    if stuck is not None and report_stuck(a, *stuck, t0):
        return 1
    if problem is not None:
        print(f"ERROR property={a.prop} {problem}", file=sys.stderr)
        return 2
    write_evidence(a, [d for d in done.values() if d], t0, total, 0)
    for kind, e in known_kinds(a.prop).items():
        print(f"KNOWN-FINDING: property={a.prop} {e['what']}")
    return 0


def write_evidence(a, done, t0, total, violations, extra=None):
    prop = importlib.import_module("dst.budget").BUDGET[a.prop]
    wall = time.monotonic() - t0
    agg, faults, probes = Counter(), Counter(), Counter()
    digests, scheds, states, samples = set(), set(), set(), []
    for d in done:
        agg.update({k: v for k, v in d["agg"].items() if k != "capped"})
        faults.update(d["faults"])
        probes.update(d["probes"])
        digests.update(d["digests"])
        scheds.update(d["scheds"])
        states.update(d["states"])
        samples.extend(d["samples"])
    runs = agg["runs"]
    cov = dict(
        evaluations=runs,
        distinct_nontrivial=len(digests),
        rule=prop["rule"],
        samples=samples[:3],
        runs_planned=total,
        stopped_by_wall_cap=any(d["agg"].get("capped") for d in done),
        seeds_per_hour=round(runs / wall * 3600) if wall > 0 else 0,
        simulated_steps=agg["steps"],
        simulated_time_ticks=agg["sim_time"],
        context_switches=agg["switches"],
        distinct_interleavings=len(scheds),
        distinct_states=len(states),
        faults_injected=dict(sorted(faults.items())),
        probes_hit=dict(sorted(probes.items())),
        determinism=dict(runs_executed_twice=agg["replayed"], digest_mismatches=agg["mismatches"]),
        real_components=prop["real"],
        stub_components=prop["stub"],
        workers=len(done),
    )
    if extra:
        cov.update(extra)
    ev = dict(property=a.prop, tier=a.tier, seed=a.seed, level="exploration", coverage=cov,
              assumptions=prop.get("assumptions", []), wall_s=round(wall, 1), violations=violations)
    tmp = os.path.join(EVIDENCE, f".{a.prop}.json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, f"{a.prop}.json"))


# --------------------------------------------------------------- violation reporting
def run_child(args, hashseed, timeout):
    p = spawn(args, hashseed, stderr=subprocess.PIPE)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, "", "timeout"
    return p.returncode, out, err


def again_worker(a, m):
    rc, out, err = run_child(["--worker", a.prop, "--start", m["worker"], "--stride", m["stride"], "--total",
                              m["i"] + 1, "--cap", 240, "--seed", a.seed], m["worker"], 260)
    for line in out.splitlines():
        if line.startswith('{"t": "violation"'):
            return json.loads(line)
    return None


def report_stuck(a, k, i, t0):
    """A run that hangs or kills the process: report it if it does so again on its own."""
    rdir = os.path.join(OUT, "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f"{a.prop}-{a.seed}-{i}.json")
    with open(path, "w") as f:
        json.dump(dict(property=a.prop, kind="hang", msg="the run does not end, or ends the process", seed=a.seed,
                       run=i, pythonhashseed=k, history=[], streams=None), f, indent=1)
    rc, out, err = run_child(["--replay", path, "--quiet"], k, LIFE)
    if rc is not None and rc >= 0:
        return False
    write_evidence(a, [], t0, 0, 1, extra=dict(violation=dict(kind="hang", replay=path)))
    print(f"{a.prop}: run {i} " + (f"does not end within {LIFE} s" if rc is None else f"ended the process ({rc})"))
    print(f"VIOLATION property={a.prop} replay={path}")
    return True


def report(a, m, t0):
    """Confirm in a fresh process, minimise, confirm the minimised replay, report."""
    rdir = os.path.join(OUT, "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f"{a.prop}-{a.seed}-{m['i']}.json")
    base = dict(property=a.prop, kind=m["kind"], msg=m["msg"], seed=a.seed, run=m["i"],
                pythonhashseed=m["worker"], history=[], streams=m["streams"])

    def store(d):
        with open(path, "w") as f:
            json.dump(d, f, indent=1)

    def reproduces():
        rc, out, err = run_child(["--replay", path, "--quiet"], base["pythonhashseed"], 240)
        return rc == 1

    store(base)
    ok = reproduces()
    if not ok:
        # the violation may need the runs this worker made before it
        prior = [m["worker"] + j * m["stride"] for j in range(m["n"])]
        base["history"] = prior[-400:]
        store(base)
        ok = reproduces()
        keep = base["history"]
        while ok and len(keep) > 1:
            half = keep[len(keep) // 2:]
            base["history"] = half
            store(base)
            if reproduces():
                keep = half
                continue
            base["history"] = keep
            store(base)
            break
    if not ok:
        # everything the worker did, once more: code that is itself not deterministic
        # (object addresses, real clocks) may need several attempts
        for _ in range(2):
            again = again_worker(a, m)
            if again is not None:
                base.update(kind=again["kind"], msg=again["msg"], run=again["i"], streams=again["streams"],
                            history=[m["worker"] + j * m["stride"] for j in range(again["n"])],
                            note="not exactly reproducible: the code under test is not deterministic")
                store(base)
                ok = True
                break
    if not ok:
        print(f"ERROR property={a.prop} run {m['i']} reported {m['kind']} ({m['msg'][:300]}) but it does "
              f"not reproduce in a fresh process", file=sys.stderr)
        return 2
    if not base["history"]:
        rc, out, err = run_child(["--shrink", path, "--budget", 60], base["pythonhashseed"], 240)
        if rc != 0 or not reproduces():
            store(base)
    write_evidence(a, [], t0, 0, 1, extra=dict(violation=dict(kind=base["kind"], replay=path)))
    with open(path) as f:
        d = json.load(f)
    print(f"{a.prop}: {d['kind']}: {d['msg'][:1500]}")
    for e in d.get("events", [])[-25:]:
        print("   ", e[:300])
    print(f"VIOLATION property={a.prop} replay={path}")
    return 1


def replay(a):
    with open(a.replay) as f:
        d = json.load(f)
    if os.environ.get("PYTHONHASHSEED") != str(d["pythonhashseed"]) or \
            os.environ.get("PYTHONOPTIMIZE", "") != optimize(d["pythonhashseed"]):
        rc = subprocess.run([sys.executable, "-m", "dst.main", *sys.argv[1:]], cwd=VERIF,
                            env=child_env(d["pythonhashseed"])).returncode
        return rc
    prop = load_prop(d["property"])
    for i in d["history"]:
        execute(prop, seed=run_seed(d["seed"], i))
    if d["streams"] is None:
        run, v = execute(prop, seed=run_seed(d["seed"], d["run"]))
    else:
        run, v = execute(prop, streams=d["streams"])
    if v is None:
        print("no violation")
        return 0
    if v.kind != d["kind"]:
        print(f"different violation: {v.kind}: {v.msg[:500]}")
        if not a.quiet:
            print(f"VIOLATION property={d['property']} replay={a.replay}")
        return 1
    if not a.quiet:
        for e in run.events:
            print("   ", e[:400])
        print(f"{d['property']}: {v.kind}: {v.msg[:3000]}")
        print(f"digest {run.digest()}" + (" (as recorded)" if d.get("digest") == run.digest() else ""))
        print(f"VIOLATION property={d['property']} replay={a.replay}")
    return 1


def shrink(a):
    with open(a.shrink) as f:
        d = json.load(f)
    prop = load_prop(d["property"])
    deadline = time.monotonic() + a.budget
    best = None
    tries = 0

    def attempt(streams):
        nonlocal best, tries
        tries += 1
        try:
            run, v = execute(prop, streams=streams)
        except HarnessError:
            return False
        except BaseException:  # noqa: BLE001
            return False
        if tries % 20 == 0:
            gc.collect()
        if v is None or v.kind != d["kind"]:
            return False
        best = (run, v)
        return True

    if not attempt(d["streams"]):
        return 3
    cur = {k: list(s.out) for k, s in best[0].streams.items()}

    def accept(cand):
        nonlocal cur
        if time.monotonic() > deadline:
            return False
        if attempt(cand):
            used = {k: list(s.out) for k, s in best[0].streams.items()}
            cur = used if sum(map(len, used.values())) <= sum(map(len, cand.values())) else cand
            return True
        return False

    progress = True
    while progress and time.monotonic() < deadline:
        progress = False
        for name in list(cur):
            # truncate
            lo = len(cur[name]) // 2
            while lo and time.monotonic() < deadline:
                cand = {**cur, name: cur[name][:-lo]}
                if lo <= len(cur[name]) and accept(cand):
                    progress = True
                else:
                    lo //= 2
            # delete chunks, then zero chunks
            for mode in ("del", "zero"):
                size = max(1, len(cur[name]) // 2)
                while size and time.monotonic() < deadline:
                    i = 0
                    while i < len(cur[name]) and time.monotonic() < deadline:
                        s = cur[name]
                        if mode == "del":
                            cand = s[:i] + s[i + size:]
                        else:
                            if not any(s[i:i + size]):
                                i += size
                                continue
                            cand = s[:i] + [0] * len(s[i:i + size]) + s[i + size:]
                        if accept({**cur, name: cand}):
                            progress = True
                            if mode == "zero":
                                i += size
                        else:
                            i += size
                    size //= 2
            for i in range(len(cur[name])):
                while i < len(cur[name]) and cur[name][i] > 0 and time.monotonic() < deadline:
                    s = cur[name]
                    if accept({**cur, name: s[:i] + [s[i] // 2] + s[i + 1:]}):
                        progress = True
                    else:
                        break
    run, v = execute(prop, streams=cur)
    if v is None or v.kind != d["kind"]:
        return 3
    d.update(streams={k: s.out for k, s in run.streams.items()}, msg=v.msg, events=run.events,
             faults=dict(run.faults), digest=run.digest(), shrink_attempts=tries)
    with open(a.shrink, "w") as f:
        json.dump(d, f, indent=1)
    return 0


def digests(a):
    """Developer aid: print the digest of every run (to compare processes and hash seeds)."""
    prop = load_prop(a.prop)
    for i in range(a.start, a.total, a.stride):
        run, v = execute(prop, seed=run_seed(a.seed, i))
        print(i, run.digest(), v.kind if v else "-", flush=True)
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--cap", type=float)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--worker", dest="worker_prop")
    ap.add_argument("--digests", action="store_true")
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--stride", type=int, default=1)
    ap.add_argument("--total", type=int, default=100)
    ap.add_argument("--replay")
    ap.add_argument("--quiet", action="store_true")
    ap.add_argument("--current", help="file that a worker writes the number of its run to")
    ap.add_argument("--shrink")
    ap.add_argument("--budget", type=float, default=60)
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    if a.worker_prop:
        a.prop = a.worker_prop
        return worker(a)
    if a.shrink:
        return shrink(a)
    if a.replay:
        return replay(a)
    if a.digests:
        return digests(a)
    return search(a)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:  # noqa: BLE001
        import traceback

        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
