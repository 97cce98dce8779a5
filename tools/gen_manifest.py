#!/usr/bin/env python3
"""Write MANIFEST.json for the checks registered in the harness."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTES = json.load(open(V + '/tools/levels.json'))
m = {"version": 1, "setup_cmd": "./check.sh -setup",
     "hooks": {"guard": "none: instrumentation is generated into a scratch overlay, /repo has no hooks", "enable": "check.sh rewrites the sources into a scratch directory and builds with go build -overlay -modfile", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    n = NOTES.get(p['id'])
    if not n:
        m['not_applicable'].append({"property": p['id'], "reason": "check under construction"})
        continue
    if 'na' in n:
        m['not_applicable'].append({"property": p['id'], "reason": n['na']})
        continue
    m['checks'].append({"property": p['id'], "quick_cmd": "./check.sh %s quick" % p['id'], "thorough_cmd": "./check.sh %s thorough" % p['id'],
                        "technique": n['technique'], "level": n['level'], "level_note": n['note']})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
