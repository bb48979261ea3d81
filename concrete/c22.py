"""C22 on the real code: `hs task update` run on generated database contents and command lines; all rows before and
after against an independent statement of which tasks change and how (selection as in C21)."""
import builtins
import copy
import datetime as dt
import json
from concrete import c21, lib
from concrete.c21 import REJECT, TAGS, TFILTERS, WORDS, FIELDS, INT, BOOL, TIME, TEXT, UID, OPS, typed, iso, run, rows_of, select, arguments
from concrete.dblib import wipe, put, table, states_rows, ts, tid, STATES, T0, COLS
import hypershell.task as T
from hypershell.data.model import Task, Session

REVERTED = ['schedule_time', 'server_host', 'server_id', 'client_host', 'client_id', 'command', 'start_time', 'completion_time', 'exit_status', 'outpath', 'errpath', 'waited', 'duration']
NOTNULL = {'id', 'args', 'submit_id', 'submit_time', 'submit_host', 'attempt', 'retried', 'tag'}
VALUES = {'args': ['x', '', 'echo 9', '1', 'None', 'a=b', 'true', 'a:b'], 'exit_status': ['0', '1', '-9', 'null', 'none'], 'attempt': ['1', '5'], 'retried': ['true', 'false', '0', '1', 'True'], 'submit_host': ['h', 'NULL', 'h.x=y'],
          'duration': ['3', 'null'], 'waited': ['12'], 'command': ['none', 'c d'], 'submit_time': ['2024-05-01 10:00:00', '2024-05-01'], 'start_time': ['null', '2024-03-01T12:00:10.5'], 'completion_time': ['None', '2024-03-01 17:00:10+00:00'],
          'schedule_time': ['none', '2024-01-01'], 'outpath': ['/x'], 'client_id': ['null', 'c0000000-0000-4000-8000-00000000000b'], 'previous_id': ['none']}
TAGARGS = ['a:1', 'a:', 'b:x', 'a:true', 'a:none', 'n:2.5', 'a.b:1', 'a b:2', 'new:v_1+2', 'a:X', 'a:0', 'b:false', 'b:1e-7', 'é:1', 'x-y:12345678901']
REMOVE = ['a', 'b', 'n', 'zz', 'a.b', 'a b', 'é', '']
BADARGS = ['id=x', f'id={tid(3)}', 'nope=1', 'query=1', 'columns=1', 'ID=x', 'a:x y', 'a:/', 'a:' + 'x' * 121, 'bogus', '', 'tag=x', 'exit_status == 0', 'args ~ x', 'exit_status!=0', ' args=1', 'args =1', 'a:é', '=x', 'metadata=x', 'retried>0']


def cases(rng, tier):
    base = ['new', 'ok', 'failed', 'scheduled', 'running', 'cancelled_new', 'failed_retried', 'retry_new', 'ok', 'failed']
    two = list(range(len(TAGS)))
    U = lambda **k: dict({'kind': 'update', 'states': base, 'seed': 3, 'rowtags': two[:10]}, **k)
    for f, vs in VALUES.items():
        for v in vs:
            yield U(args=[f'{f}={v}'], where=['exit_status != 0'])
            yield U(args=[f'{f}={v}'], select='failed', limit=2, order='id')
    # an update which alters what was selected on
    yield U(args=['exit_status=0', 'a:9'], select='failed', remove=['b'])
    yield U(args=['exit_status=0', 'a:9'], select='failed', remove=['b'], limit=2)
    yield U(args=['a:9', 'c:1'], tags=['a'], remove=['a'])
    yield U(args=['c:1'], tags=['a:1'], remove=['a'])
    yield U(args=['a:9', 'args=q'], where=['args ~ echo'], tags=['a'], remove=['b'], limit=3)
    yield U(args=['args=q', 'a:9'], where=['args ~ echo'])
    for m in ('cancel', 'revert', 'delete'):
        for extra in ({}, {'limit': 3}, {'limit': 3, 'order': 'submit_time'}, {'limit': 2, 'order': 'exit_status', 'desc': True}, {'limit': 0}, {'limit': -1}, {'limit': 100}):
            yield U(mode=m, **extra)
            yield U(mode=m, select='failed', **extra)
            yield U(mode=m, where=['exit_status == null'], **extra)
            yield U(mode=m, args=['a:7', 'submit_host=z'], remove=['b'], select='completed', **extra)
    for t in TAGARGS:
        for extra in ({}, {'limit': 30}):
            yield U(states=base * 3, rowtags=two, args=[t], **extra)
            yield U(states=base * 3, rowtags=two, args=[t, 'a:2', 'new:x'], remove=['b', 'a b'], tags=['a'], **extra)
    for r in REMOVE:
        for extra in ({}, {'limit': 30}):
            yield U(states=base * 3, rowtags=two, args=[], remove=[r], **extra)
            yield U(states=base * 3, rowtags=two, args=['a:1'], remove=[r, 'a'], **extra)
    for b in BADARGS:
        yield U(args=[b])
        yield U(args=['args=x', 'a:1', b], limit=2)
        yield U(args=[b, 'args=x', 'a:1'], mode='cancel')
    yield U(args=['args=x'], where=['bogus'])
    yield U(args=['args=x'], where=['nope == 1'])
    yield U(args=['args=x'], tags=['a:x y'])
    yield U(args=['args=x'], order='id')
    yield U(args=['args=x'], desc=True)
    yield U(args=[])
    yield U(args=[], limit=2)
    for a in ('', 'n', 'no', 'NO', ' no ', 'y', 'yes', 'YES', ' y ', 'maybe', 'yess'):
        for m in ({'args': ['args=x', 'a:1']}, {'mode': 'delete'}, {'mode': 'cancel', 'limit': 2}, {'mode': 'revert', 'select': 'failed'}):
            yield U(answer=a, **m)
    for f, v in (('args', 'x'), ('exit_status', '3'), ('exit_status', 'null'), ('tag', 'a:5'), ('tag', 'zz'), ('nope', '1'), ('id', 'x'), ('submit_host', 'none'), ('start_time', '2024-05-01'), ('tag', 'a:x y'), ('retried', 'true')):
        yield U(args=[tid(2), f, v])
        yield U(args=[tid(77), f, v])
    yield U(states=base * 30, rowtags=[], args=['a:1', 'submit_host=z'], limit=250)
    yield U(states=base * 30, rowtags=[], mode='delete', limit=250)
    yield U(states=base * 30, rowtags=[], mode='revert', select='completed')
    while True:
        n = rng.choice([0, 1, 3, 8, 20])
        case = {'kind': 'update', 'states': [rng.choice(STATES) for _ in range(n)], 'seed': rng.randrange(10**6), 'rowtags': [rng.randrange(len(TAGS)) for _ in range(n)]}
        args = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            f = rng.choice(sorted(VALUES))
            args.append(f'{f}={rng.choice(VALUES[f])}' if rng.random() < .5 else rng.choice(TAGARGS))
        if rng.random() < .05:
            args.insert(rng.randint(0, len(args)), rng.choice(BADARGS))
        case['args'] = args
        if rng.random() < .4:
            case['remove'] = [rng.choice(REMOVE) for _ in range(rng.choice([1, 2]))]
        if rng.random() < .35:
            case['mode'] = rng.choice(['cancel', 'revert', 'delete'])
        if rng.random() < .5:
            case['where'] = [rng.choice(['exit_status == 0', 'exit_status != 0', 'args ~ echo', 'attempt == 1', 'submit_time > 2024-03-01 12:00:20', 'client_host == h-a', 'duration > 3', 'retried == false', 'schedule_time != null', 'previous_id == none',
                                         'submit_host == sub', 'outpath ~ /o', 'bogus', 'attempt >= 2', 'command != null']) for _ in range(rng.choice([1, 2]))]
        if rng.random() < .35:
            case['tags'] = [rng.choice(TFILTERS[:30]) for _ in range(rng.choice([1, 2]))]
        if rng.random() < .25:
            case['select'] = rng.choice(['failed', 'succeeded', 'completed', 'remaining'])
        if rng.random() < .4:
            case['limit'] = rng.choice([0, 1, 2, 5, 100, -1])
            if rng.random() < .6:
                case['order'], case['desc'] = rng.choice(sorted(FIELDS)), rng.random() < .5
        if rng.random() < .05:
            case['answer'] = rng.choice(['', 'n', 'y', 'x'])
        yield case


def value_of(field, text):
    """The stored value, or None for 'not covered' (as a 1-tuple otherwise)."""
    if text.lower() in ('null', 'none'):
        return (None,)
    if field in TEXT:
        return (text,)
    if field in TIME:
        v = iso(text)
        return None if v is None else (v.strftime('%Y-%m-%d %H:%M:%S.%f'),)
    v = typed(text)
    if isinstance(v, (str, float)):
        return None
    return (int(v),)


def changes_of(case):
    """(fields, tags) requested, REJECT, or None when not covered."""
    fields, tags = {}, {}
    for a in case.get('args', []):
        if c21.re.match(r'[a-z_]+\s*(==|!=|>=|<=|>|<|~)', a):
            return REJECT
        eq, colon = a.find('='), a.find(':')
        if eq >= 0:
            f, v = a[:eq], a[eq + 1:]
            if f not in FIELDS or f == 'id':
                return REJECT
            x = value_of(f, v)
            if x is None or x[0] is None and f in NOTNULL:
                return None
            fields[f] = x[0]
        elif colon >= 0:
            k, v = a[:colon], typed(a[colon + 1:])
            if isinstance(v, str) and v.strip() and not c21.re.fullmatch(r'[A-Za-z0-9_.+-]{1,120}', v):
                return REJECT
            tags[k] = v
        else:
            return REJECT
    return fields, tags


def near(text):
    if text is None:
        return False
    return abs((dt.datetime.fromisoformat(text) - dt.datetime.now()).total_seconds()) < 60


def same_tags(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


def check(case):
    rows = rows_of(case)
    wipe()
    put(rows)
    before = table()
    rows = [dict(before[r['id']]) for r in rows]
    legacy = len(case.get('args', [])) == 3 and case['args'][0].startswith('0000')
    argv = list(case.get('args', []))
    argv += arguments(case)
    if case.get('mode'):
        argv += ['--' + case['mode']]
    if case.get('remove'):
        argv += ['--remove-tag', *case['remove']]
    if not argv:
        return
    asked = []
    real = builtins.input
    if 'answer' in case:
        builtins.input = lambda *a: (asked.append(a), case['answer'])[1]
    else:
        argv += ['--no-confirm']
        builtins.input = lambda *a: (asked.append(a), 'no')[1]
    try:
        status, text = run(T.TaskUpdateApp, argv)
    finally:
        builtins.input = real
    after = table()
    if 'answer' not in case and asked:
        return f'asked: {argv} asks for confirmation'

    def diff(i):
        return {k: (before[i][k], after[i][k]) for k in COLS if k in before[i] and (not same_tags(before[i][k], after[i][k]) if k == 'tag' else before[i][k] != after[i][k])}

    def unchanged():
        if list(after) != list(before):
            return f'modified: {argv}: tasks added or removed'
        bad = [i for i in before if diff(i)]
        return f'modified: {argv}: {bad[0]} changed {diff(bad[0])}' if bad else None

    if legacy:
        u, f, v = case['args']
        if f == 'tag':
            name, colon, val = v.partition(':')
            val = typed(val) if colon else ''
            ok = not (isinstance(val, str) and val and not c21.re.fullmatch(r'[A-Za-z0-9_.+-]{1,120}', val))
            new = {'tag': dict(before.get(u, {'tag': {}})['tag'], **{name: val})}
        else:
            ok = f in FIELDS and f != 'id'
            x = value_of(f, v) if ok else (None,)
            if x is None or x[0] is None and f in NOTNULL and ok:
                return
            new = {f: x[0]}
        if not ok or u not in before:
            return unchanged() or (None if status == 'rejected' else f'accepted: {argv}')
        for i in before:
            want = dict(before[i], **new) if i == u else before[i]
            if after.get(i) != want and not (i in after and same_tags(after[i]['tag'], want['tag']) and {**after[i], 'tag': 0} == {**want, 'tag': 0}):
                return f'single: {argv}: {i} is {after.get(i)} instead of {want}'
        return None if status == 'ok' else f'error: {argv}'

    req, sel = changes_of(case), select(case, rows)
    if req is REJECT or sel is REJECT or case.get('desc') and not case.get('order') or case.get('order') and not case.get('limit'):
        if case.get('order') and case.get('limit') == 0:
            return
        return unchanged() or (None if status == 'rejected' else f'accepted: {argv}')
    if req is None or sel is None:
        return
    fields, tags = req
    if any('"' in k or '\\' in k for k in tags):
        return
    if status != 'ok':
        return unchanged() and f'partial: {argv} failed but changed something' or f'error: {argv}: {text[:200]}'
    must, may = sel
    if 'answer' in case and case['answer'].strip().lower() not in ('y', 'yes'):
        return unchanged()
    if case.get('mode') == 'cancel':
        fields = {**fields, 'schedule_time': near, 'exit_status': -1}
    if case.get('mode') == 'revert':
        fields = {**fields, **{k: None for k in REVERTED}}
    limit = case.get('limit')
    limit = None if limit is None or limit < 0 else limit
    mustids, allowed = {r['id'] for r in must}, {r['id'] for r in must} | {r['id'] for r in may}

    if case.get('mode') == 'delete':
        touched = {i for i in before if i not in after}
        for i in after:
            if i not in before:
                return f'modified: {argv}: new task {i}'
            if diff(i):
                return f'modified: {argv}: {i} changed {diff(i)}'
        effect = touched
        unaffected = set(after)
        invisible = set()
    else:
        if list(after) != list(before):
            return f'modified: {argv}: tasks added or removed: {set(before) ^ set(after)}'
        touched, invisible = set(), set()
        for i, b in before.items():
            want = dict(b)
            for k, v in fields.items():
                want[k] = v
            want['tag'] = {k: v for k, v in {**b['tag'], **tags}.items() if k not in (case.get('remove') or [])}
            a = after[i]
            is_new = all((v(a[k]) if callable(v) else same_tags(v, a[k]) if k == 'tag' else type(v) is type(a[k]) and v == a[k]) for k, v in want.items())
            is_old = not diff(i)
            if not is_new and not is_old:
                return f'partial: {argv}: {i} changed {diff(i)} instead of {fields} {tags} -{case.get("remove")}'
            if is_new and is_old:
                invisible.add(i)
            elif is_new:
                touched.add(i)
    wrong = touched - allowed
    if wrong:
        i = sorted(wrong)[0]
        return f'other: {argv}: {before[i]} does not satisfy the conditions but was changed'
    if limit is None:
        missing = mustids - touched - invisible
        if missing:
            return f'missing: {argv}: {before[sorted(missing)[0]]} satisfies the conditions but was not changed'
        return
    n = min(limit, len(mustids))
    if len(touched) > limit or len(touched) + len(invisible & allowed) < n:
        return f'limit: {argv}: {len(touched)} tasks changed, {len(mustids)} match'
    if case.get('order') and not may and not invisible:
        key = lambda i: before[i][case['order']]
        vals = [key(i) for i in touched]
        some = sorted([key(i) for i in mustids if key(i) is not None], reverse=bool(case.get('desc')))
        none = [None] * sum(1 for i in mustids if key(i) is None)
        srt = lambda v: sorted(v, key=lambda x: (x is None, x))
        if not any(srt([x for x in o if x is not None]) == srt([x for x in vals if x is not None]) and o.count(None) == vals.count(None) for o in ((none + some)[:limit], (some + none)[:limit])):
            return f'order: {argv}: changed those with {vals}'
