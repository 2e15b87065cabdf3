#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
LEVEL = ("Seeded search over schedules and fault sequences of the real code in one deterministic process; assurance is that of the "
  "explored runs (counts in the evidence), not exhaustive. Trusts the reference interpreter / oracle in sim/harness and the patched Go runtime seam. ")
NOTE = {}
exec(open(os.path.join(here, 'tools', 'claims.py')).read())  # CLAIMED: id -> note, NA: id -> reason
checks = []
for p in props:
    if p['id'] in CLAIMED:
        checks.append({"property": p['id'], "quick_cmd": "./check.sh " + p['id'], "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p['id'],
            "technique": "deterministic simulation with fault injection: seeded search over schedules and faults", "level": "exploration",
            "level_note": LEVEL + CLAIMED[p['id']]})
na = [{"property": p['id'], "reason": NA[p['id']]} for p in props if p['id'] not in CLAIMED]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
  "hooks": {"guard": "simruntime", "enable": "no hooks in /repo: the checks build /repo's working tree through 'go build -overlay' with -tags simruntime; statement-level scheduling points are inserted into overlay copies, and runtime/time sources are patched in the overlay", "source_commits": []},
  "notes": "Replay a violation with './check.sh replay FILE'. See DESIGN.md."}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
