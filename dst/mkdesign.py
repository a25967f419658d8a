"""Rewrites the generated tables of DESIGN.md: repairs and planted bugs."""
import glob
import json
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
# bugs that were missed at first -> what the check was extended by
AFTER = {
    "dict-writes-unchecked": "C05 item assignment of modules, variables and plain values", "uuid-16-bits": "C08 graphs of 66000 modules", "rng-count-8-bits": "C06 bursts of 1100 draws",
    "foreach-skips-private": "C11 attribute names that start with an underscore",
    "leaf-write-keeps-dtype": "C13 values of other dtypes",
    "jit-argnames-split": "C03 static arguments with longer names", "sow-skips-same": "C14 the same object sown again",
    "apply-no-variables": "C15 models without variables", "variable-class-by-name": "C17 look `mapped`",
    "ctxdef-eq-ignores-flags": "C07 contexts as arguments", "step-small-int": "C16 train states at large steps",
    "refused-draw-counts": "C06 operation `refused`", "fork-shares-streams": "C06 operation `remerge`, reference by deepcopy",
    "moduledef-cache": "C07 edits of kept modules between calls", "remat-static-offset": "C03 negative static_argnums",
    "call-merges-once": "C15 kept proxies", "def-apply-merges-once": "C15 kept proxies",
    "scan-out-axes-swapped": "C04 ranks up to 3, axes 2 and -2", "state-shares-dict": "C13 edits of the caller's dict", "ctx-counts-by-sorted-name": "C06 streams not in alphabetical order",
    "logical-rules-captured": "C10 variables and initializers kept from block to block", "seq-dict-keeps-keywords": "C24 elements that return some of their keywords",
}


def fill(text, name, body):
    return re.sub(rf"(<!-- {name} -->\n).*?(<!-- end -->)", lambda m: m[1] + body + "\n" + m[2], text, flags=re.S)


fixed = json.load(open(os.path.join(VERIF, "known_findings.json")))["fixed"]
rows = []
for f in fixed:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", f)
    rows.append(f"* {m[1]} ({m[2]}): {m[3]}")
seeds = ["| planted bug | property | needs | caught |", "|---|---|---|---|"]
for p in sorted(glob.glob(os.path.join(VERIF, "seeded", "*", "meta.json"))):
    m = json.load(open(p))
    i = os.path.basename(os.path.dirname(p))
    seeds.append(f"| {i} | {m['property']} | {m['needs']} | {'after: ' + AFTER[i] if i in AFTER else 'yes'} |".replace("\n", " "))
path = os.path.join(VERIF, "DESIGN.md")
text = open(path).read()
text = fill(text, "fixed", "\n".join(rows))
text = fill(text, "seeded", "\n".join(seeds))
open(path, "w").write(text)
