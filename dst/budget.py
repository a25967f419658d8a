"""Per property: runs per tier and what the evidence file says about the runs."""
REAL = "all of nnx (imported from /repo's working tree), jax, flax, optax"
BUDGET = {
    "C01": dict(
        quick=500, thorough=20000,
        rule="each run: one training job of 3-6 steps, run without interruption and then with saves, kills and restarts "
             "(1-5 lives); non-trivial: at least one checkpoint became durable; distinct: different event log",
        real=[REAL], stub=["disk: files with a write cache that loses and tears unsynced data", "process kill: the "
                           "job's objects are dropped; every fourth job is also resumed in another real process"],
    ),
    "C02": dict(
        quick=8000, thorough=300000,
        rule="each run: 2-8 nested objects, 4-16 saves and restores of state dicts damaged by the store, in one task or "
             "2-3 simulated threads; non-trivial: at least one dict was saved and restored; distinct: different event "
             "log and schedule",
        real=[REAL + " (flax.serialization included)"],
        stub=["storage: state dicts and files that lose, rename, tear and mix entries", "thread scheduler (seeded "
              "preemption of nnx frames)"],
    ),
    "C03": dict(
        quick=2500, thorough=60000,
        rule="each run: one random module graph, 1-2 transformed random programs, 2-5 calls with faults; non-trivial: "
             "every call of the history was made; distinct: different event log",
        real=[REAL], stub=["jax.jit/grad/checkpoint wrapped to fail on demand, otherwise real"],
    ),
    "C04": dict(
        quick=2500, thorough=60000,
        rule="each run: one scan configuration and module, 1-4 calls with faults, against step-by-step execution; "
             "non-trivial: the module could be built and every call was made; distinct: different event log",
        real=[REAL], stub=["jax.lax.scan/jax.eval_shape wrapped to fail on demand, otherwise real"],
    ),
    "C05": dict(
        quick=3000, thorough=80000,
        rule="each run: 1-3 simulated threads, each growing a tree of nested transforms and attempting 14-30 changes "
             "to objects of every level; non-trivial: at least one attempt was refused and one allowed; distinct: "
             "different event log and schedule",
        real=[REAL], stub=["thread scheduler (seeded preemption of nnx frames)"],
    ),
    "C06": dict(
        quick=800, thorough=30000,
        rule="each run: 1-4 random programs of draws, bursts, forks and transformed calls on contexts, in 1-3 simulated "
             "threads; non-trivial: at least 4 keys were drawn; distinct: different event log and schedule",
        real=[REAL], stub=["thread scheduler (seeded preemption of nnx frames)"],
    ),
    "C07": dict(
        quick=1000, thorough=30000,
        rule="each run: 2-5 modules that differ in one respect each, 3-9 calls of 1-4 jitted functions on them, in 1-3 "
             "simulated threads, with failing traces and cache clears; non-trivial: every run; distinct: different event "
             "log and schedule",
        real=[REAL], stub=["thread scheduler (seeded preemption of nnx frames)"],
    ),
    "C08": dict(
        quick=5000, thorough=150000,
        rule="each run: 1-4 simulated threads making, attaching, copying, merging and cloning modules, then everything "
             "composed into one graph; non-trivial: at least 4 distinct modules; distinct: different event log and schedule",
        real=[REAL], stub=["thread scheduler (seeded preemption of nnx frames)"],
    ),
    "C09": dict(
        quick=6000, thorough=300000,
        rule="each run: 2-10 printable objects over 1-2 module graphs, printed 4-16 times by 1-4 simulated threads with "
             "failing attributes; non-trivial: at least one object elides a shared or cyclic submodule; distinct: different "
             "event log and schedule",
        real=[REAL], stub=["thread scheduler (seeded preemption of nnx frames)", "attributes whose repr fails on demand"],
    ),
    "C10": dict(
        quick=3000, thorough=100000,
        rule="each run: 1-4 simulated threads, each a program of 4-13 nested rule blocks, rule changes, mesh blocks, "
             "traces, faults and lookups; non-trivial: at least 6 lookups compared; distinct: different event log and "
             "schedule",
        real=[REAL], stub=["thread scheduler (seeded preemption of nnx frames)"],
    ),
    "C11": dict(
        quick=8000, thorough=300000,
        rule="each run: 1-3 simulated threads, each a program of 6-27 nested init calls, edits, clones and failures on "
             "its own graphs; non-trivial: an init call ran and over 20 flags were compared; distinct: different event "
             "log and schedule",
        real=[REAL], stub=["thread scheduler (seeded preemption of nnx frames)"],
    ),
    "C12": dict(
        quick=8000, thorough=300000,
        rule="each run: 1-4 simulated threads, 4-24 operations each on a shared pool of pytrees, with constructors, "
             "replacements, maps and restores that fail; non-trivial: at least 4 assignments were refused; distinct: "
             "different event log and schedule",
        real=[REAL], stub=["thread scheduler (seeded preemption of nnx frames)"],
    ),
    "C13": dict(
        quick=20000, thorough=400000,
        rule="each run: 2-5 cooperating tasks, 3-14 operations each, interleaved by the tape; non-trivial: at least 6 "
             "operations executed; distinct: different event log",
        real=[REAL], stub=["task scheduler (cooperative, seeded)", "filters that raise on demand"],
    ),
    "C14": dict(
        quick=2000, thorough=60000,
        rule="each run: one module graph, 4-12 operations of producers and collectors (or 2-3 simulated threads with "
             "graphs of their own), then a drain; non-trivial: more than two values were sown; distinct: different "
             "event log and schedule",
        real=[REAL], stub=["jax.jit/grad/checkpoint/eval_shape/lax.scan wrapped to fail on demand, otherwise real",
                           "thread scheduler (seeded preemption of nnx frames)"],
    ),
    "C16": dict(
        quick=1500, thorough=40000,
        rule="each run: a server, 1-3 workers and 0-2 replicas exchange versions and gradients over a faulty network "
             "until 3-8 updates are applied (or 2-3 simulated threads update one pool of versions); non-trivial: more "
             "than 3 versions; distinct: different event log and schedule",
        real=[REAL], stub=["network, clock and server crashes (discrete-event simulation)",
                           "optimizer that fails on demand", "thread scheduler (seeded preemption of nnx frames)"],
    ),
    "C15": dict(
        quick=1500, thorough=60000,
        rule="each run: one of 48 models, 1-3 readers of 2-9 operations, each executed alone beforehand and then on "
             "the shared model; non-trivial: more than two operations; distinct: different event log and schedule",
        real=[REAL], stub=["thread scheduler (seeded preemption of nnx frames)", "a layer that fails on demand"],
    ),
    "C17": dict(
        quick=4000, thorough=60000,
        rule="each run: 1-4 simulated threads, 3-7 class definitions, registrations and looks each; non-trivial: at "
             "least 2 registrations and 4 looks; distinct: different event log and schedule",
        real=[REAL], stub=["thread scheduler (seeded preemption of nnx frames)"],
    ),
}

_PURE = "a pure function of its inputs: no schedule, clock, I/O, fault or history enters it, so there is nothing to simulate"
NOT_APPLICABLE = {
    "C18": _PURE + " (filters are exercised as part of C13)",
    "C19": _PURE + " (numerical specification; the layers run as workloads in C01 and C15)",
    "C20": _PURE,
    "C21": _PURE,
    "C22": _PURE + " (the scoping of the rules it reads is C10)",
    "C23": _PURE,
}
BUDGET["C25"] = dict(
    quick=1000, thorough=40000,
    rule="each run: 1-3 simulated threads, each with 1-3 replicas of a net of 1-3 BatchNorm and Dropout layers and "
         "3-10 calls and messages; non-trivial: every run; distinct: different event log and schedule",
    real=[REAL], stub=["thread scheduler (seeded preemption of nnx frames)",
                       "network between replicas (mailbox that loses, duplicates, delays and reorders)"],
)
BUDGET["C24"] = dict(
    quick=6000, thorough=300000,
    rule="each run: 1-3 simulated threads, each 4-19 operations on its own Dicts and Sequences and calls of a shared "
         "Sequence, with failing elements, iterables and refused edits; non-trivial: at least 8 looks at containers and "
         "one call; distinct: different event log and schedule",
    real=[REAL], stub=["thread scheduler (seeded preemption of nnx frames)", "elements that fail on demand"],
)
