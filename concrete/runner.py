"""Worker: python runner.py PROPERTY TIER SEED BUDGET_S WORKER WORKERS OUT.json [CASE.json]"""
import importlib
import json
import os
import random
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    prop, tier, seed, budget, w, n, out = sys.argv[1:8]
    seed, budget, w, n = int(seed), float(budget), int(w), int(n)
    case_file = sys.argv[8] if len(sys.argv) > 8 else None
    t0 = time.monotonic()
    clock = time.monotonic
    res = {'property': prop, 'cases': 0, 'failures': [], 'error': None, 'exhausted': False, 'kinds': {}, 'samples': []}
    devnull = os.open(os.devnull, os.O_WRONLY)
    saved = os.dup(1)
    os.dup2(devnull, 1)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(devnull, 2)
    try:
        mod = importlib.import_module('concrete.' + prop.lower())
        if case_file:
            cases = [json.load(open(case_file))]
            n, w = 1, 0
        else:
            cases = mod.cases(random.Random(seed), tier)
        keys = set()
        for i, case in enumerate(cases):
            if i % n != w:
                continue
            if clock() - t0 > budget and not case_file:
                break
            from concrete.lib import Stop
            try:
                r = mod.check(case)
            except Stop as e:
                r = f'run did not finish: {e}'
            except Exception as e:
                # an exception leaving the harness: the code under test or its interface broke
                r = {'key': f'exception:{type(e).__name__}', 'what': f'{type(e).__name__}: {e}', 'trace': traceback.format_exc()[-1500:],
                     'harness': not any('hypershell' in f.filename for f in traceback.extract_tb(e.__traceback__))}
            res['cases'] += 1
            k = case.get('kind', 'case') if isinstance(case, dict) else 'case'
            res['kinds'][k] = res['kinds'].get(k, 0) + 1
            if len(res['samples']) < 3:
                res['samples'].append(case)
            if r is not None:
                if isinstance(r, str):
                    r = {'key': r.split(':')[0], 'what': r}
                r['case'] = case
                r.setdefault('harness', False)
                if r['key'] not in keys:
                    keys.add(r['key'])
                    res['failures'].append(r)
                    if len(keys) >= 6:
                        break
        else:
            res['exhausted'] = True
    except BaseException as e:
        res['error'] = f'{type(e).__name__}: {e}\n' + traceback.format_exc()[-3000:]
    json.dump(res, open(out, 'w'), default=str)
    os.dup2(saved, 1)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
