#!/opt/venv/bin/python
"""Write MANIFEST.json from levels.json and properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = json.load(open(f'{H}/levels.json'))
NA = json.load(open(f'{H}/lib/na.json'))
props = [json.loads(l) for l in open(f'{H}/properties.jsonl')]
checks, na = [], []
PY = '/opt/venv/bin/python'
for p in props:
    i = p['id']
    if i in L:
        checks.append({'property': i, 'quick_cmd': f'{PY} check.py {i} --tier quick', 'thorough_cmd': f'{PY} check.py {i} --tier thorough',
                       'technique': L[i].get('technique', 'contract-based deductive verification (pyvc weakest-precondition/path obligations on the real functions, discharged by z3)'),
                       'level': L[i]['level'], 'level_note': L[i].get('note', 'see DESIGN.md')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'not built yet')})
json.dump({'version': 1, 'setup_cmd': f'{PY} lib/setup.py', 'checks': checks, 'not_applicable': na}, open(f'{H}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
