#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registered checks."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import check  # noqa
sys.modules["check"] = check
import specs
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
NA = getattr(specs, "NOT_APPLICABLE", {})
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in specs.SPECS:
        t, note = specs.INFO[pid]
        checks.append(dict(property=pid, quick_cmd="python3 tools/check.py %s --tier quick" % pid,
                           thorough_cmd="python3 tools/check.py %s --tier thorough" % pid,
                           evidence_file="evidence/%s.json" % pid, technique=t, level="exploration", level_note=note))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, "no check has been built for it yet")))
m = dict(version=1, setup_cmd="python3 tools/check.py --selftest", checks=checks, not_applicable=na,
         notes="No hooks in /repo: monitors call the public C API of the sanitizer-built library or run its tools. Known findings: known_findings.txt.")
with open(os.path.join(here, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
