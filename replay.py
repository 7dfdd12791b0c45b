#!/usr/bin/env python3
"""
replay.py FILE: runs the failing inputs of a replay file against /repo as it
is now, and prints what happens. Exits 1 if any still fails.
"""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
rec = json.load(open(sys.argv[1]))
bad = 0
for o in rec.get('failed_obligations', []):
    print(f"obligation not discharged: {o['goal']}: {o['name']}")
    print(json.dumps(o.get('detail'), indent=1)[:3000])
for v in rec.get('failing_inputs', []):
    out = subprocess.run(['/opt/venv/bin/python', '-m', 'vf.harness.runner', rec['property'], str(v['seed']), '1',
                          '--case', v['case'], str(v['index'])], cwd=HERE, stdout=subprocess.PIPE, text=True).stdout
    d = json.loads([l for l in out.splitlines() if l.startswith('{')][-1])
    for w in d.get('violations', []) + d.get('errors', []):
        bad += 1
        print(f"{w['case']}#{w['index']} seed {v['seed']}: {w['message']}")
        for t in w['trace']:
            print('    ', t)
if not rec.get('failing_inputs'):
    bad = 1
    print('no failing input was found; run the check again to make the obligations afresh')
sys.exit(1 if bad else 0)
