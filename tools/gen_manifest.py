import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
exec(open(os.path.join(here, 'tools', 'techniques.py')).read(), T)
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks = []
for p in props:
    i = p['id']
    if i not in T['TECH']:
        continue
    tech, note = T['TECH'][i]
    checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks,
     "not_applicable": [{"property": p['id'], "reason": T['NA'].get(p['id'], 'check under construction')} for p in props if p['id'] not in T['TECH']],
     "notes": "No hooks in /repo are needed: the harness crate (harness/) uses the public API over a loopback socket and in-process. Replay a failure with: harness/target/release/obsverif replay <ID> <file>."}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
