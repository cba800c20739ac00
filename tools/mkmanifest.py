#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the claims below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl') if l.strip()]
MODEL = "runtime monitoring: "
CLAIMS = {
 'T05': ("seeded workloads of schemas and documents through the real transformer, each output compared by an online monitor with an independent reference evaluator", "same place, default and omission rules"),
 'T06': ("seeded workloads through the real transformer, each output compared by an online monitor with an independent reference evaluator; metamorphic monitors over edited lists", "first, last and concatenate"),
 'T07': ("seeded workloads of nested array and object transforms through the real transformer, each output compared by an online monitor with an independent reference evaluator", "arrays, objects and relative paths"),
 'T08': ("seeded workloads of operation chains over JSON and XML, each output compared by an online monitor with independent models of every operation", "operations, argument checks and failures"),
}
try:
    exec(open(root + '/tools/claims.py').read())
except FileNotFoundError:
    pass
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMS:
        t, what = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": "bash check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + i,
            "technique": MODEL + t, "level": "exploration",
            "level_note": "Held on the executions produced from VERIF_SEED (%s); says nothing about inputs, schedules or schemas the workload does not draw. Trusts the oracle in /verif/harness and the Go toolchain." % what})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
  "notes": "No hooks: every monitor observes /repo through its exported API, its generated code and its command line tools. level exploration throughout."},
  open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
