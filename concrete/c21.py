"""C21 on the real code: `hs task search` run on generated database contents and command lines against an
independent statement of which tasks satisfy the conditions."""
import contextlib
import datetime as dt
import io
import os
import re
import time

os.environ['TZ'] = 'EST5'  # times with an offset have to be converted to local time
time.tzset()
from concrete import lib
lib.setup(fake_clock=False, dbfile=os.path.join(lib.scratch(), f'db.{os.getpid()}.sqlite'))
from concrete.dblib import wipe, put, table, states_rows, ts, tid, STATES, T0
import hypershell.task as T
from hypershell.data.model import Task, Session

INT = {'exit_status', 'attempt', 'waited', 'duration'}
BOOL = {'retried'}
TIME = {'submit_time', 'schedule_time', 'start_time', 'completion_time'}
UID = {'id', 'submit_id', 'server_id', 'client_id', 'previous_id', 'next_id'}
TEXT = {'args', 'submit_host', 'server_host', 'client_host', 'command', 'outpath', 'errpath'} | UID
FIELDS = INT | BOOL | TIME | TEXT
OPS = ['==', '!=', '>=', '<=', '>', '<', '~']
TAGS = [{}, {'a': 1}, {'a': None}, {'a': 'x'}, {'a': ''}, {'a': True}, {'a': False}, {'a': 0}, {'a': 1.0}, {'a': 2.5}, {'a': 'none'}, {'a': 'x', 'b': 1}, {'a': 1, 'b': None}, {'b': 'x'}, {'b': ''}, {'a.b': 1},
        {'a': {'b': 1}}, {'a b': 'x'}, {'a': 1e-7}, {'a': 0.1 + 0.2}, {'a': 12345678901}, {'a': 'X'}, {'a': -3}, {'a': 'x.y'}, {'n': 1}, {'a': 2, 'b': 2, 'n': 'k'}, {'a': '1'}, {'é': 1}, {'': 1}, {'a': 'null'}]
TFILTERS = ['a', 'b', 'n', 'a:', 'a:1', 'a:0', 'a:x', 'a:X', 'a:true', 'a:false', 'a:none', 'a:1.0', 'a:2.5', 'a:0.0', 'b:1', 'b:x', 'b:null', 'zz', 'zz:1', 'zz:null', 'zz:none', 'zz:0', 'zz:false', 'a.b', 'a.b:1', 'a b',
            'a b:x', ' a : 1 ', 'a:1e-7', f'a:{0.1 + 0.2!r}', 'a:12345678901', 'a:-3', 'a:x.y', 'b:', 'n:k', 'é', 'a:2', 'b:2', 'a:x y', 'a:/', 'a:' + 'x' * 121, 'A', 'key_0', 'a:x ']


def typed(t):
    low = t.lower()
    if low in ('null', 'none'):
        return None
    if low in ('true', 'false'):
        return low == 'true'
    for kind in (int, float):
        try:
            return kind(t)
        except ValueError:
            pass
    return t


def iso(t):
    try:
        v = dt.datetime.fromisoformat(t)
    except ValueError:
        return None
    if v.tzinfo is not None:
        v = v.astimezone(dt.timezone(dt.timedelta(hours=-5))).replace(tzinfo=None)
    return v


REJECT, MAY = 'reject', 'may'


def cond(text):
    """predicate of rows → True | False | MAY, or REJECT, or None (not covered)."""
    m = re.fullmatch(r'([a-z_]+)[ \t\n\r\f\v]*(==|!=|>=|<=|>|<|~)(.*)', text, re.S)
    if not m:
        return REJECT if not re.match(r'[a-z_]+\s*(==|!=|>=|<=|>|<|~)', text) else None
    field, op, value = m[1], m[2], m[3].lstrip()
    if field == 'tag':
        return None
    if field not in FIELDS:
        return REJECT
    if op == '~':
        if field not in TEXT:
            return None
        try:
            rex = re.compile(value)
        except re.error:
            return None
        return lambda r: r[field] is not None and rex.search(r[field]) is not None
    null = value.lower() in ('null', 'none')
    if null:
        if op == '==':
            return lambda r: r[field] is None
        if op == '!=':
            return lambda r: r[field] is not None
        return REJECT
    if value.strip().lower() in ('null', 'none') and field not in TEXT:
        return None
    if field in TEXT:
        v, get = value, lambda r: r[field]
    elif field in TIME:
        v = iso(value)
        if v is None:
            return None
        get = lambda r: None if r[field] is None else dt.datetime.fromisoformat(r[field])
    else:
        v = typed(value)
        if isinstance(v, str) or v != v or abs(v) >= 2**53:
            return None
        if field in BOOL and (type(v) is float or v not in (0, 1)):
            return None
        if type(v) is bool and (field in INT or op not in ('==', '!=')):
            return None
        if field in BOOL and op not in ('==', '!='):
            return None
        get = lambda r: r[field]
    fn = {'==': lambda a: a == v, '!=': lambda a: a != v, '>=': lambda a: a >= v, '<=': lambda a: a <= v, '>': lambda a: a > v, '<': lambda a: a < v}[op]
    return lambda r: get(r) is not None and fn(get(r))


def tagcond(text):
    name, colon, value = text.strip().partition(':')
    name, value = name.strip(), value.strip()
    if '"' in name or '\\' in name or '\x00' in name:
        return None
    v = typed(value) if colon else ''
    if isinstance(v, str) and v and not re.fullmatch(r'[A-Za-z0-9_.+-]{1,120}', v):
        return REJECT
    if isinstance(v, float) and (v != v or abs(v) == float('inf')) or isinstance(v, int) and abs(v) >= 2**53:
        return None
    if v == '' and isinstance(v, str):
        return lambda r: name in r['tag']
    if v is None:
        return lambda r: name in r['tag'] and r['tag'][name] is None

    def match(r):
        if name not in r['tag']:
            return False
        w = r['tag'][name]
        if type(w) is type(v):
            return w == v
        if isinstance(w, (bool, int, float)) and isinstance(v, (bool, int, float)) and w == v:
            return MAY
        return False
    return match


WORDS = ['x', '', 'a b', 'A', 'none', 'null', 'None', '0', '1', '-1', '2', '7', '5', 'true', 'False', '1.0', '6.5', '1e0', 'echo 1', 'ECHO', 'sub', 'srv', 'é', 'echo', '.', '^e', '3$', '[', '(', 'a\nb', 'x\n', ' ', '>', '=', '= 1',
         '2024-03-01', '2024-03-01 12:00:10', '2024-03-01T12:00:10', '2024-03-01 12:00:10.000000', '2024-03-01 17:00:10+00:00', '2024-03-01T12:01:10-05:00', '20240301', '2024-03-02', '2024-05', "o'x", '%', '_', 'echo _', 'abc', '01', '+1', '1_0', 'c0000000']


def cases(rng, tier):
    base = ['new', 'ok', 'failed', 'scheduled', 'running', 'cancelled_new', 'failed_retried', 'retry_new', 'ok']
    for op in OPS:
        for f, v in [('exit_status', '0'), ('exit_status', 'null'), ('args', 'echo 2'), ('args', 'None'), ('submit_time', '2024-03-01 12:00:20'), ('retried', 'true'), ('retried', '0'), ('attempt', '2'), ('attempt', '1.5'), ('client_host', 'h-a'),
                     ('submit_time', '2024-03-01 17:00:20+00:00'), ('nope', '1'), ('query', '1'), ('metadata', '1'), ('args', ''), ('previous_id', 'null'), ('start_time', 'null'), ('columns', 'x'), ('outpath', '/o/2')]:
            for sp in (('', ''), (' ', ' ')):
                yield {'kind': 'search', 'states': base, 'seed': 3, 'where': [f'{f}{sp[0]}{op}{sp[1]}{v}']}
    for t in TFILTERS:
        yield {'kind': 'search', 'states': base * 3, 'seed': 4, 'tags': [t], 'rowtags': list(range(len(TAGS)))}
    for a in ('a', 'b', 'a:1', 'b:x', 'zz', 'a:none'):
        for b in ('a', 'b', 'n', 'a:x', 'b:none'):
            yield {'kind': 'search', 'states': base * 3, 'seed': 4, 'tags': [a, b], 'rowtags': list(range(len(TAGS)))}
    for w in ('bogus', '', 'args', 'args = 1', 'args === 1', 'ARGS == 1', ' args == 1', '== 1', 'args => 1', 'args =~ 1', 'args <> 1', 'exit-status == 0', 'exit_status is null', '1 == 1', 'args != ', 'args==', 'args ==\nx'):
        yield {'kind': 'search', 'states': base, 'seed': 5, 'where': [w]}
        yield {'kind': 'search', 'states': base, 'seed': 5, 'where': ['exit_status == 0', w]}
    for s in ('failed', 'succeeded', 'completed', 'remaining'):
        for w in ([], ['attempt == 1'], ['exit_status == 1'], ['exit_status != null']):
            yield {'kind': 'search', 'states': base * 2, 'seed': 6, 'where': w, 'select': s}
            yield {'kind': 'search', 'states': base * 2, 'seed': 6, 'where': w, 'select': s, 'order': 'duration', 'limit': 3}
    for o in sorted(FIELDS):
        for d in (False, True):
            yield {'kind': 'search', 'states': base * 2, 'seed': 7, 'order': o, 'desc': d}
            yield {'kind': 'search', 'states': base * 2, 'seed': 8, 'order': o, 'desc': d, 'limit': 5, 'where': ['exit_status != 1']}
    for n in (0, 1, 2, 8, 9, 10, -1):
        yield {'kind': 'search', 'states': base, 'seed': 9, 'limit': n}
        yield {'kind': 'search', 'states': base, 'seed': 9, 'limit': n, 'count': True, 'where': ['exit_status == null']}
    yield {'kind': 'search', 'states': base, 'seed': 9, 'count': True}
    yield {'kind': 'search', 'states': [], 'seed': 9}
    yield {'kind': 'search', 'states': base, 'seed': 9, 'where': ['args ~ echo', 'exit_status == 0', 'args ~ 2']}
    yield {'kind': 'search', 'states': base, 'seed': 9, 'field': 'nope'}
    while True:
        n = rng.choice([0, 1, 3, 8, 20])
        case = {'kind': 'search', 'states': [rng.choice(STATES) for _ in range(n)], 'seed': rng.randrange(10**6)}
        if rng.random() < .7:
            case['where'] = [rng.choice(sorted(FIELDS) + ['nope', 'tag'] if rng.random() < .97 else ['', 'x1', 'A']) + rng.choice(['', ' ', '  ', '\t']) + rng.choice(OPS) + rng.choice(['', ' ', '  ']) + rng.choice(WORDS)
                             for _ in range(rng.choice([1, 1, 2, 3]))]
        if rng.random() < .4:
            case['tags'] = [rng.choice(TFILTERS) for _ in range(rng.choice([1, 1, 2, 3]))]
            case['rowtags'] = [rng.randrange(len(TAGS)) for _ in range(n)]
        if rng.random() < .3:
            case['select'] = rng.choice(['failed', 'succeeded', 'completed', 'remaining'])
        if rng.random() < .4:
            case['order'], case['desc'] = rng.choice(sorted(FIELDS)), rng.random() < .5
        if rng.random() < .4:
            case['limit'] = rng.choice([0, 1, 2, 5, 100, -1])
        if rng.random() < .15:
            case['count'] = True
        if rng.random() < .3:
            case['vary'] = [[rng.randrange(max(1, n)), rng.choice(sorted(TEXT - UID)), rng.choice(WORDS)] for _ in range(4)]
        yield case


def rows_of(case):
    rows = states_rows(case['states'], case['seed'])
    for r, k in zip(rows, case.get('rowtags', [])):
        r['tag'] = TAGS[k]
    for i, f, v in case.get('vary', []):
        if i < len(rows):
            rows[i][f] = v
    return rows


def reset(app):
    for a in app.interface._actions:
        if isinstance(a.default, list):
            a.default = []


def arguments(case):
    args = []
    if case.get('where'):
        args += ['-w', *case['where']]
    if case.get('tags'):
        args += ['-t', *case['tags']]
    if case.get('select'):
        args += ['--' + case['select']]
    if case.get('order'):
        args += ['-s', case['order']]
    if case.get('desc'):
        args += ['--desc']
    if 'limit' in case:
        args += [f'--limit={case["limit"]}']
    return args


def select(case, rows):
    """(must, may): the rows that match and those that may in addition; or REJECT; or None."""
    conds = [cond(w) for w in case.get('where', [])] + [tagcond(t) for t in case.get('tags', [])]
    sel = case.get('select')
    if sel:
        conds.append({'failed': lambda r: r['exit_status'] not in (None, 0), 'succeeded': lambda r: r['exit_status'] == 0,
                      'completed': lambda r: r['exit_status'] is not None, 'remaining': lambda r: r['exit_status'] is None}[sel])
    if any(c is None for c in conds):
        return None
    if any(c is REJECT for c in conds):
        return REJECT
    must, may = [], []
    for r in rows:
        res = [c(r) for c in conds]
        if False in res:
            continue
        (may if MAY in res else must).append(r)
    return must, may


def run(app, args):
    """('ok', stdout) or ('rejected', log)."""
    reset(app)
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        try:
            status = app.main(args)
        except SystemExit as e:
            status = e.code
        except Exception as e:
            Session.rollback()
            return 'rejected', repr(e)
    Session.rollback()
    Session.remove()
    return ('ok' if status == 0 else 'rejected'), out.getvalue()


def check(case):
    rows = rows_of(case)
    wipe()
    put(rows)
    before = table()
    want = select(case, rows)
    if case.get('field'):
        want = REJECT
    if want is None:
        return
    args = [case.get('field', 'id'), *arguments(case)]
    status, text = run(T.TaskSearchApp, args + (['--count'] if case.get('count') else []))
    if table() != before:
        return f'modified: a search changed the database: {args}'
    if want is REJECT:
        if status != 'rejected':
            return f'ignored: {args} was not rejected: {text[:200]!r}'
        return
    if status != 'ok':
        return f'error: {args} failed: {text[:300]}'
    must, may = want
    limit = case.get('limit')
    limit = None if limit is None or limit < 0 else limit
    if case.get('count'):
        lo, hi = len(must), len(must) + len(may)
        if limit is not None:
            lo, hi = min(lo, limit), min(hi, limit)
        if not lo <= int(text) <= hi:
            return f'count: {args} printed {text.strip()} instead of {lo}'
        return
    got = text.split()
    by = {r['id']: r for r in rows}
    if len(set(got)) != len(got) or not set(got) <= set(by):
        return f'rows: {args} printed {got[:5]}'
    allowed = {r['id'] for r in must} | {r['id'] for r in may}
    extra = [g for g in got if g not in allowed]
    if extra:
        return f'unsatisfied: {args} returned a task that does not satisfy the conditions: {by[extra[0]]}'
    if limit is None:
        missing = [r for r in must if r['id'] not in got]
        if missing:
            return f'missing: {args} did not return {missing[0]}'
    elif not min(limit, len(must)) <= len(got) <= limit:
        return f'limit: {args} returned {len(got)} tasks of {len(must)}'
    if case.get('order'):
        key = lambda i: by[i][case['order']]
        vals = [key(g) for g in got]
        some = [v for v in vals if v is not None]
        if some != sorted(some, reverse=bool(case.get('desc'))):
            return f'order: {args} returned {vals}'
        nulls = [i for i, v in enumerate(vals) if v is None]
        if nulls and nulls != list(range(nulls[0], nulls[0] + len(nulls))) or nulls and nulls[0] != 0 and nulls[-1] != len(vals) - 1:
            return f'order: {args} returned {vals}'
        if limit is not None and not may:
            rest = [key(r['id']) for r in must if r['id'] not in got]
            desc = bool(case.get('desc'))
            # tasks without a value are all before or all after the others
            orders = [[v for v in sorted([key(r['id']) for r in must if key(r['id']) is not None], reverse=desc)]]
            none = [None] * sum(1 for r in must if key(r['id']) is None)
            if vals not in [(none + orders[0])[:limit], (orders[0] + none)[:limit]]:
                return f'order: {args} returned {vals}, left out {rest}'
