"""Writes MANIFEST.json from the property table of pv/props.py."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from pv import props

checks = []
for pid, p in sorted(props.PROPS.items()):
    checks.append({
        "property": pid,
        "quick_cmd": "python3 -m pv.check %s" % pid,
        "thorough_cmd": "python3 -m pv.check %s --thorough" % pid,
        "technique": "static analysis: " + p.technique,
        "level": p.level,
        "level_note": "Decides the rule `%s` exactly for every declaration or program of the corpus described in DESIGN.md (all values, paths and instantiations of each), and generalises from the corpus to other declarations by the macro's uniformity in their structure. Trusted: %s." % (p.rule, "; ".join(p.assumptions)),
    })
NA = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
claimed = {c["property"] for c in checks}
reasons = {
    "N01": "Totality and cost of the macros (they terminate in reasonable time on every token stream) is a statement about the run-time behaviour of recursive code over unbounded inputs, through syn's parser; no sound static argument in reach bounds it, and running the macro over generated inputs would be a test, not static analysis.",
}
out = {
    "version": 1,
    "setup_cmd": "python3 -m pv.build",
    "checks": checks,
    "not_applicable": [{"property": x["id"], "reason": reasons[x["id"]]} for x in NA if x["id"] not in claimed],
    "notes": "No hooks in /repo are needed: the facts come from a compiler driver (driver/) run on /repo's crates and on witness crates that use them. Commits in /repo are repairs (fix:), listed in known-findings.txt.",
}
open(os.path.join(ROOT, "MANIFEST.json"), "w").write(json.dumps(out, indent=1) + "\n")
print(len(checks))
