"""Regenerate MANIFEST.json from the checks present in mc/ (developer tool)."""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "exploration": "bounded exhaustive exploration of the real code over a stated input/sequence lattice, checked against an independent float64 reference model",
    "model_checking": "explicit-state model checking: all model traces up to a bound, each replayed on the real code (conformance)",
    "fault_enumeration": "exhaustive enumeration of environment outcomes / faults on the real code up to a deviation bound, against a reference state machine",
}


def consts(fn):
    out = {}
    for n in ast.parse(open(fn).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except Exception:
                pass
    return out


checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    pid = p["id"]
    fn = os.path.join(V, "mc", pid.lower() + ".py")
    if not os.path.exists(fn):
        na.append(dict(property=pid, reason="check not built yet"))
        continue
    c = consts(fn)
    note = c["RULE"] + " Oracle: " + c.get("ORACLE", "independent float64 re-implementation of the documented law (mc/ref.py) at float32-exact inputs") + "."
    if c.get("ASSUMPTIONS"):
        note += " Assumes: " + "; ".join(c["ASSUMPTIONS"]) + "."
    checks.append(
        dict(
            property=pid,
            quick_cmd=f"bash run.sh {pid} --tier quick",
            thorough_cmd=f"bash run.sh {pid} --tier thorough",
            technique=c.get("TECHNIQUE", TECH[c["LEVEL"]]),
            level=c["LEVEL"],
            level_note=note,
        )
    )
m = dict(
    version=1,
    setup_cmd="bash setup.sh",
    checks=checks,
    not_applicable=na,
    notes="No hooks: everything is driven through the package's own functions; environment seams (file system, MPI, optimiser) are replaced from outside.",
)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
