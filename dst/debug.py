"""Developer aid: python -m dst.debug C03 [seed] run... : execute runs and print everything."""
import sys
import traceback

from dst.main import execute, load_prop

prop = load_prop(sys.argv[1])
for i in sys.argv[2:]:
    run, v = execute(prop, seed=f"1/{i}")
    print("=== run", i, run.digest())
    for e in run.events:
        print("   ", e[:1500])
    if v is not None:
        print("VIOLATION", v.kind, v.msg[:3000])
        if v.__cause__ is not None:
            traceback.print_exception(v.__cause__, limit=-12)
