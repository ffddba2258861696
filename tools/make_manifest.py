"""Writes MANIFEST.json from the property list and the checks that exist."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PENDING = "no check has been built for this property yet"
NOTES = {
    "default": "Symbolic execution of the compiler's MIR of /repo, re-exported on every run, against a written contract; all inputs, no bound on loops. Floats are read as reals.",
}
exec(open(os.path.join(ROOT, "tools/levels.py")).read())
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")):
        checks.append(
            {
                "property": i,
                "quick_cmd": "bash check.sh " + i,
                "thorough_cmd": "bash check.sh " + i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": "contract verification: verification conditions from rustc MIR of /repo, discharged by an equality prover and z3",
                "level": "proof",
                "level_note": LEVEL.get(i, NOTES["default"]),
            }
        )
    else:
        na.append({"property": i, "reason": NA.get(i, PENDING)})
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "none", "enable": "no hook is needed: the entry points in roots/ call the public API only", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "check.sh ID exports the MIR of /repo's current sources, generates the obligations of the property and discharges them; see DESIGN.md.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
