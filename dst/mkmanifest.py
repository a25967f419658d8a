"""Regenerates MANIFEST.json from properties.jsonl and budget.py."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
sys.path.insert(0, VERIF)
from dst.budget import BUDGET, NOT_APPLICABLE  # noqa: E402

checks, na = [], []
for line in open(os.path.join(VERIF, "properties.jsonl")):
    p = json.loads(line)
    b = BUDGET.get(p["id"])
    if b is None:
        na.append(dict(property=p["id"], reason=NOT_APPLICABLE.get(p["id"], "the simulation for it is not built yet")))
        continue
    checks.append(dict(
        property=p["id"],
        quick_cmd=f"./check {p['id']}",
        thorough_cmd=f"./check {p['id']} --tier thorough",
        technique=b.get("technique", "deterministic simulation with fault injection: seeded search over schedules and "
                                     "fault sequences against a reference model"),
        level="exploration",
        level_note=b.get("note", "") + " Sampled, not exhaustive: a quiet run is evidence for the runs made. Trusts the "
                   "reference model and the simulator in /verif/dst; jax, flax and optax run for real.",
    ))
json.dump(dict(
    version=1,
    setup_cmd="./setup.sh",
    hooks=dict(guard="DST_REPO", enable="no hooks were added to /repo: the seams are installed from /verif/dst/env.py "
               "before nnx is imported (DST_REPO only selects another checkout to test)", source_commits=[]),
    checks=checks, not_applicable=na,
), open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
