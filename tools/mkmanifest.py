"""Write MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
NA = {
    "C31": "A bound on a numerical error that depends on the data; the structural part is C12 and C13.",
    "C32": "Equality of two counting histories over all signals; the structural part is C04, C06 and C28.",
    "C33": "Convergence is a limit statement about numbers; the structural part is C19 and C20.",
}
TECH = {}
DEFAULT = ("dataflow analysis to value graphs, compared with reference graphs",
           "Decided on the value graph of the current source (all callees, all paths, arrays of arbitrary length); library calls are modelled; an alarm needs graphs that differ and a valuation that tells them apart. What the analysis cannot resolve is reported as undecided, not as a violation.")
for l in open(os.path.join(HERE, "technique.jsonl")) if os.path.exists(os.path.join(HERE, "technique.jsonl")) else ():
    d = json.loads(l)
    TECH[d["id"]] = (d["technique"], d["note"])

checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(V, "sa", "checks", p + ".py")):
        t, n = TECH.get(p, DEFAULT)
        checks.append(dict(property=p, quick_cmd=f"python3 sa/run.py {p}", thorough_cmd=f"python3 sa/run.py {p}", evidence_file=f"evidence/{p}.json", technique=t, level="other", level_note=n))
    else:
        na.append(dict(property=p, reason=NA.get(p, "No check yet.")))
m = dict(version=1, setup_cmd="python3 -c \"import sys; assert sys.version_info >= (3, 9)\"", checks=checks, not_applicable=na,
         notes="Static analysis only: sa/ parses /repo/py_fatigue on every run and never imports or runs it. Standard library only; nothing to build.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
