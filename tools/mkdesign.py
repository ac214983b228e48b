"""DESIGN.md = tools/design_head.md + one line for every planted bug."""
import glob
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
CROSS = {}           # other checks known to catch it as well
for line in open(os.path.join(HERE, "also_caught.txt")):
    if line.strip():
        bug, *props = line.split()
        CROSS[bug] = props

out = open(os.path.join(HERE, "design_head.md")).read().rstrip() + "\n\n"
out += "| planted bug | needs | caught by |\n|---|---|---|\n"
for m in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    bug = os.path.basename(os.path.dirname(m))
    j = json.load(open(m))
    also = CROSS.get(bug, [])
    out += f"| {bug} | {j['needs']} | {', '.join([j['property'], *also])} |\n"
open(os.path.join(ROOT, "DESIGN.md"), "w").write(out)
