"""Writes MANIFEST.json from the properties and the registered generators."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from harness.registry import GENERATORS, NOTES, TECHNIQUES  # noqa: E402

TECH = "TLA+ specification checked with TLC; traces recorded from the library validated against it"
LEVEL = ("Explicit TLA+ specification model-checked by TLC on small instances and bound to the code by trace validation: "
         "every recorded call of this run is decided by the specification. Not covered: arguments that were neither "
         "enumerated nor sampled. Trusted: TLC, the recording harness.")
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in GENERATORS:
        checks.append({"property": i, "quick_cmd": "bin/check.py %s --tier quick" % i,
                       "thorough_cmd": "bin/check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": TECHNIQUES.get(i, TECH), "level": "model_checking",
                       "level_note": (NOTES.get(i, '') + ' ' + LEVEL).strip()})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bin/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Specification in spec/*.tla (TLA+, TLC); harness in harness/. No hooks in /repo."}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', [x['property'] for x in na], 'not')
