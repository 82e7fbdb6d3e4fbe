#!/usr/bin/env python3
"""Rewrites MANIFEST.json from pbt/registry.py and properties.jsonl."""
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from pbt import registry  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, missing = [], []
for prop in props:
    pid = prop["id"]
    spec = registry.SPECS.get(pid)
    if spec is None:
        missing.append({"property": pid, "reason": registry.NOT_APPLICABLE.get(
            pid, "check not built yet")})
        continue
    checks.append({
        "property": pid,
        "quick_cmd": f"/opt/venv/bin/python run.py {pid} --tier quick",
        "thorough_cmd": f"/opt/venv/bin/python run.py {pid} --tier thorough",
        "technique": spec.get("technique", "property-based testing"),
        "level": "exploration",
        "level_note": spec.get("note", "") + " Sampled, not exhaustive: shows presence of "
        "violations, not absence. Assumes: " + "; ".join(
            registry.ASSUMPTIONS + spec.get("assumptions", [])) + ".",
    })
manifest = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python selftest.py",
    "checks": checks,
    "not_applicable": missing,
    "notes": "All checks are Python property-based tests (Hypothesis strategies, explicit "
             "oracles, replayable JSON cases) run against /repo's working tree; no hooks "
             "in /repo. See DESIGN.md.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", len(missing), "unclaimed")
