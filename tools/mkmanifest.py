#!/usr/bin/env python3
# Writes MANIFEST.json for the properties whose monitors exist.
import json, re, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = set()
for f in glob.glob(root + '/harness/*.go'):
    t = open(f).read()
    ids |= set(re.findall(r'registerDiff\("(C\d+)"', t)) | set(re.findall(r'ID:\s*"(C\d+)"', t))
tech = {}
exec(open(root + '/tools/techniques.py').read())
checks = []
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
for p in props:
    i = p['id']
    if i in ids:
        checks.append({
            "property": i,
            "quick_cmd": "VERIF_TIER=quick ./check.sh " + i,
            "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
            "technique": tech[i],
            "level": "exploration",
            "level_note": "runtime monitoring: the property held on every execution observed in the run (counts in the evidence file); executions never run are not covered",
        })
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [{"property": p["id"], "reason": "the monitor of this property is still being built"} for p in props if p["id"] not in ids]}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks; missing:', [p['id'] for p in props if p['id'] not in ids])
