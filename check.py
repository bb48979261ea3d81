#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's current tree."""
import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
LEVELS = json.load(open(os.path.join(HERE, 'levels.json')))


def spawn(args, scratch, env=None):
    e = dict(os.environ, VERIF_SCRATCH=scratch, HYPERSHELL_SITE=os.path.join(scratch, 'site'), PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', TZ='UTC')
    for k in list(e):
        if k.startswith('HYPERSHELL_') and k != 'HYPERSHELL_SITE':
            del e[k]
    os.makedirs(e['HYPERSHELL_SITE'], exist_ok=True)
    e.update(env or {})
    return subprocess.Popen(args, cwd=scratch, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                            stderr=None if os.environ.get('VERIF_DEBUG') else subprocess.DEVNULL, start_new_session=True)


def wait(p, limit):
    try:
        p.wait(limit)
    except subprocess.TimeoutExpired:
        pass
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def load(path):
    try:
        return json.load(open(path))
    except Exception:
        return None


def concrete(prop, tier, seed, budget, base, workers, tag='c'):
    procs = []
    for w in range(workers):
        sc = os.path.join(base, f'{tag}{w}')
        os.makedirs(sc)
        out = os.path.join(sc, 'out.json')
        procs.append((spawn([PY, os.path.join(HERE, 'concrete', 'runner.py'), prop, tier, str(seed), str(budget), str(w), str(workers), out], sc), out))
    return procs


def gather(procs, limit):
    end = time.monotonic() + limit
    out = {'cases': 0, 'failures': [], 'errors': [], 'kinds': {}, 'samples': [], 'workers': len(procs)}
    for p, path in procs:
        wait(p, max(1, end - time.monotonic()))
        r = load(path)
        if r is None:
            out['errors'].append('worker produced no result (timeout or crash)')
            continue
        out['cases'] += r['cases']
        for k, v in r['kinds'].items():
            out['kinds'][k] = out['kinds'].get(k, 0) + v
        out['samples'] += r['samples'][:1]
        if r['error']:
            out['errors'].append(r['error'])
        for f in r['failures']:
            if f['key'] not in {g['key'] for g in out['failures']}:
                out['failures'].append(f)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    a = ap.parse_args()
    prop, tier = a.property, a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.monotonic()
    base = tempfile.mkdtemp(prefix=f'verif-{prop}-')
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    try:
        code = decide(prop, tier, seed, base, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    sys.exit(code)


def decide(prop, tier, seed, base, t0):
    thorough = tier == 'thorough'
    psc = os.path.join(base, 'prove')
    os.makedirs(psc)
    pout = os.path.join(psc, 'out.json')
    pb = 600 if thorough else 150
    prover = spawn([PY, os.path.join(HERE, 'prove.py'), prop, tier, pout, str(pb)], psc)
    budget = 240 if thorough else LEVELS.get(prop, {}).get('budget', 12)
    workers = 6 if thorough else 3
    procs = concrete(prop, tier, seed, budget, base, workers)
    con = gather(procs, budget + 90)
    wait(prover, pb + 30)
    pr = load(pout) or {'error': 'prover produced no result (timeout or crash)', 'obligations': [], 'refuted': [], 'unknown': [], 'unsupported': [],
                        'missing_cover': [], 'contracts': [], 'functions': {}, 'discharged': 0, 'solver_s': 0, 'paths': 0, 'queries': 0, 'complete': False}
    known = [k for k in json.load(open(os.path.join(HERE, 'known_findings.json')))['findings'] if k['property'] == prop and k.get('status') != 'fixed']
    known_keys = {k['key']: k for k in known if 'key' in k}
    known_obl = {k['obligation']: k for k in known if 'obligation' in k}
    hit = []
    fails = []
    for f in con['failures']:
        if f['key'] in known_keys:
            hit.append(known_keys[f['key']])
        elif f.get('harness'):
            con['errors'].append(f"{f['what']}\n{f.get('trace', '')}")
        else:
            fails.append(f)
    refuted = []
    for o in pr['refuted']:
        if o['name'] in known_obl:
            hit.append(known_obl[o['name']])
        else:
            refuted.append(o)
    lines, code = [], 0
    if refuted and not fails:
        # replay of the verifier's counterexample: intensive search of the real code for an input
        more = gather(concrete(prop, 'thorough', seed + 1, 60 if not thorough else 120, base, 6, 'i'), 200)
        con['cases'] += more['cases']
        fails = [f for f in more['failures'] if f['key'] not in known_keys and not f.get('harness')]
    if fails or refuted:
        code = 1
        f = fails[0] if fails else None
        rp = os.path.join(HERE, 'evidence', f'{prop}.replay.json')
        json.dump({'property': prop, 'failing_input': f, 'all_failures': fails, 'failed_obligations': refuted[:10],
                   'how': f'{PY} {os.path.join(HERE, "replay.py")} {rp}', 'tree': '/repo (current working tree)'}, open(rp, 'w'), indent=1, default=str)
        tail = '' if f else ' no-failing-input-found'
        lines.append(f'VIOLATION property={prop} replay={rp}{tail}')
    elif con['cases'] == 0 and not pr['complete']:
        code = 2
        lines.append(f'UNDECIDED property={prop}: {con["errors"][:1]} {pr.get("error")} {pr["unsupported"][:1]}')
    for k in {id(k): k for k in hit}.values():
        lines.append(f'KNOWN-FINDING: property={prop} {k["what"]}')
    lv = LEVELS.get(prop, {})
    cov = {
        'obligations': len(pr['obligations']), 'discharged': pr['discharged'],
        'checker_cmd': f'{PY} {HERE}/prove.py {prop} {tier} OUT.json',
        'trusted_base': lv.get('trusted', []),
        'proof_complete': pr['complete'],
        'back_ends': pr.get('backends', {}), 'solver_s': round(pr['solver_s'], 3), 'queries': pr['queries'], 'paths': pr['paths'],
        'functions_under_contract': sorted(pr['functions']), 'contracts': pr['contracts'],
        'undecided_contracts': pr['unsupported'], 'unknown_obligations': [o['name'] for o in pr['unknown']],
        'uncovered': pr['missing_cover'], 'refuted': [o['name'] for o in pr['refuted']], 'obligation_names': pr['obligations_summary'] if 'obligations_summary' in pr else {},
        'bounded_stand_in': {'label': 'bounded (cross-check and replay on the unmodified code; never counted as proved)', 'cases': con['cases'], 'kinds': con['kinds'],
                             'budget_s': budget, 'workers': workers, 'errors': con['errors'][:3], 'samples': con['samples'][:3]},
        'known_findings': [k['what'] for k in {id(k): k for k in hit}.values()],
    }
    if pr.get('error'):
        cov['prover_error'] = pr['error']
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': lv.get('level', 'other'), 'coverage': cov, 'wall_s': round(time.monotonic() - t0, 2),
          'assumptions': lv.get('assumptions', []), 'violations': 1 if code == 1 else 0}
    json.dump(ev, open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w'), indent=1, default=str)
    for l in lines:
        print(l)
    print(f'{prop}: {pr["discharged"]}/{len(pr["obligations"])} obligations discharged, complete={pr["complete"]}, '
          f'{con["cases"]} concrete cases, {len(con["errors"])} harness errors, {ev["wall_s"]} s')
    return code


if __name__ == '__main__':
    main()
