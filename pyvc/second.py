"""Second back end: the obligations z3 discharged are given to cvc5 as SMT-LIB."""
import time
from collections import Counter


def redischarge(rep, budget_s=200):
    import cvc5
    t0 = time.time()
    res = Counter()
    seen = {}
    for o in rep.obligations:
        if o.trivial:
            res['trivial (closed by evaluation)'] += 1
            continue
        if not o.smt:
            res['no query'] += 1
            continue
        if o.smt in seen:
            res[seen[o.smt]] += 1
            continue
        if time.time() - t0 > budget_s:
            res['not attempted (time)'] += 1
            continue
        try:
            s = cvc5.Solver()
            s.setOption('tlimit-per', '5000')
            s.setOption('strings-exp', 'true')
            s.setLogic('ALL')
            p = cvc5.InputParser(s)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, o.smt, 'q')
            sm = p.getSymbolManager()
            out = ''
            while True:
                cmd = p.nextCommand()
                if cmd.isNull():
                    break
                out += str(cmd.invoke(s, sm))
            r = 'unsat' if 'unsat' in out else 'sat' if 'sat' in out else 'unknown'
        except Exception as e:
            r = f'error'
        if r == 'sat' and o.status == 'proved':
            r = 'DISAGREES'
        seen[o.smt] = r
        res[r] += 1
    return dict(res)
