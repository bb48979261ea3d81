#!/opt/venv/bin/python
"""prove.py PROPERTY TIER OUT.json [BUDGET_S]: generate and discharge the obligations of one property."""
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    prop, tier, out = sys.argv[1:4]
    budget = float(sys.argv[4]) if len(sys.argv) > 4 else 150
    os.environ.setdefault('HYPERSHELL_SITE', os.path.join(os.environ.get('VERIF_SCRATCH', '/tmp'), 'site'))
    os.makedirs(os.environ['HYPERSHELL_SITE'], exist_ok=True)
    os.environ['HYPERSHELL_LOGGING_LEVEL'] = 'critical'
    from pyvc import core, models
    sys.setrecursionlimit(20000)
    thorough = tier == 'thorough'
    rep = core.Report(keep_smt=thorough, timeout_ms=20000 if thorough else 5000, budget_s=budget - 15)
    err = None
    try:
        models.load()
        importlib.import_module('contracts.' + prop.lower()).run(rep)
    except BaseException as e:
        err = f'{type(e).__name__}: {e}\n' + traceback.format_exc()[-3000:]
    second = None
    if thorough and not err:
        from pyvc import second as s2
        second = s2.redischarge(rep, budget_s=200)
    bad = {n for n, _ in rep.unsupported}
    obs = rep.obligations
    # a contract the engine cannot follow decides nothing
    live = [o for o in obs if o.contract not in bad]
    summary = {}
    for o in obs:
        k = f'{o.contract} / {o.name}'
        summary.setdefault(k, {}).setdefault(o.status, 0)
        summary[k][o.status] += 1
    res = {'obligations': [o.name for o in obs], 'obligations_summary': summary,
           'refuted': [{'name': o.name, 'contract': o.contract, 'detail': o.detail} for o in live if o.status == 'refuted'],
           'unknown': [{'name': o.name, 'contract': o.contract} for o in obs if o.status == 'unknown' or (o.contract in bad and o.status == 'refuted')],
           'discharged': len(rep.discharged), 'unsupported': rep.unsupported, 'missing_cover': rep.missing_cover,
           'contracts': rep.contracts, 'functions': rep.functions, 'solver_s': rep.solver_s, 'queries': rep.queries, 'paths': rep.paths,
           'complete': bool(rep.complete) and not err, 'error': err,
           'backends': {'z3 (python API 4.x/5.x in process)': len(rep.discharged), 'cvc5 (re-discharge)': second}}
    json.dump(res, open(out, 'w'), default=str)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
