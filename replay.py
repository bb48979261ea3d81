#!/opt/venv/bin/python
"""replay.py FILE: run the failing input recorded in a replay file against /repo's current tree."""
import json, os, sys, subprocess, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
d = json.load(open(sys.argv[1]))
if not d.get('failing_input'):
    print('no failing input recorded; failed obligations:')
    for o in d['failed_obligations']:
        print(' ', o['contract'], '/', o['name'], json.dumps(o['detail'])[:1500])
    sys.exit(1)
base = tempfile.mkdtemp(prefix='replay-')
try:
    case = os.path.join(base, 'case.json')
    json.dump(d['failing_input']['case'], open(case, 'w'))
    out = os.path.join(base, 'out.json')
    env = dict(os.environ, VERIF_SCRATCH=base, HYPERSHELL_SITE=os.path.join(base, 'site'), PYTHONHASHSEED='0')
    subprocess.run(['/opt/venv/bin/python', os.path.join(HERE, 'concrete', 'runner.py'), d['property'], 'quick', '1', '60', '0', '1', out, case], cwd=base, env=env, stdin=subprocess.DEVNULL)
    r = json.load(open(out))
    print(json.dumps(r, indent=1))
    sys.exit(1 if r['failures'] else 0)
finally:
    shutil.rmtree(base, ignore_errors=True)
