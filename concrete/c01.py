"""C01 on the real code: records through pack and unpack."""
import datetime as dt
import itertools
import json
from concrete import lib
hs = lib.setup()
from hypershell.data.model import Task, Client

TASK = {'id': 'str', 'args': 'str', 'submit_id': 'str', 'submit_time': 'time', 'submit_host': '?str',
        'server_id': '?str', 'server_host': '?str', 'schedule_time': '?time', 'client_id': '?str',
        'client_host': '?str', 'command': '?str', 'start_time': '?time', 'completion_time': '?time',
        'exit_status': '?int', 'outpath': '?str', 'errpath': '?str', 'attempt': 'int', 'retried': 'bool',
        'waited': '?int', 'duration': '?int', 'previous_id': '?str', 'next_id': '?str', 'tag': 'tag'}
CLIENT = {'id': 'str', 'host': 'str', 'server_id': 'str', 'server_host': 'str', 'connected_at': '?time', 'disconnected_at': '?time', 'evicted': 'bool'}
TEXT = ['', 'x', '2024-01-01', '20240101', '2024-W01-1', '2024-01-01 10:00:00', '2024-01-01T10:00:00.5+02:00', 'échappé ☃ \U0001f600', '\n\t\x00\x7f', '"quoted" \\ {} \'', 'null', 'true', '123',
        '1e5', 'NaN', ' lead trail ', '{"a": 1}', '[]', '\ud800', 'a' * 2000, '0001-01-01', '12:30:00', '1999-12-31T23:59:59Z', 'None', '%s %d', '\r\n', '\u2028', 'abcdef', '0', '-1']
TIMES = ['2024-03-01T12:00:00+00:00', '2024-03-01T12:00:00.123456+05:30', '2024-03-01T12:00:00.000001-09:45', '0001-01-01T00:00:00', '9999-12-31T23:59:59.999999', '2024-03-01T12:00:00',
         '2024-03-01T12:00:00.100000', '1970-01-01T00:00:00+00:00', '1890-01-01T00:00:00-03:06:28', '2024-11-03T01:30:00-05:00', '2024-11-03T01:30:00+01:00', '2024-03-01T00:00:00.999999-00:00:01']
INTS = [0, 1, -1, 2, 127, -15, 255, 10**9, -2**31, 2**63, 10**30]
TAGS = [{}, {'a': ''}, {'a': 1, 'b': 2.5, 'c': True, 'd': None, 'e': False}, {'x': '2024-01-01', 'y': '12:30:00'}, {'2024-01-01': 'v'}, {'é': 'x.y_z+1-2'}, {'n': 0, 'f': -1.5e-300, 'big': 10**20},
        {'id': 'x', 'args': 'y'}, {'z': 1.0}, {'z': 1}, {'': '  '}]


def value(sort, rng):
    if sort.startswith('?'):
        return None if rng.random() < .3 else value(sort[1:], rng)
    if sort == 'str':
        return rng.choice(TEXT) if rng.random() < .7 else ''.join(chr(rng.choice([rng.randint(0, 127), rng.randint(0, 0x2fff)])) for _ in range(rng.randint(0, 12)))
    if sort == 'time':
        if rng.random() < .5:
            return rng.choice(TIMES)
        d = dt.datetime(rng.randint(1, 9998), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.choice([0, 1, 500000, 999999, rng.randint(0, 999999)]))
        if rng.random() < .7:
            d = d.replace(tzinfo=dt.timezone(dt.timedelta(minutes=rng.randint(-1439, 1439), seconds=rng.choice([0, 0, 30]))))
        return d.isoformat()
    if sort == 'int':
        return rng.choice(INTS)
    if sort == 'bool':
        return rng.random() < .5
    return rng.choice(TAGS)


def fixed(schema):
    """Each field in turn takes each of its special values, all others ordinary or null."""
    special = {'str': TEXT, 'time': TIMES, 'int': INTS, 'bool': [True, False], 'tag': TAGS}
    base = {'str': 'text', 'time': TIMES[0], 'int': 3, 'bool': False, 'tag': {}}
    for rest in ('full', 'null'):
        for f, s in schema.items():
            for v in special[s.lstrip('?')] + ([None] if s[0] == '?' else []):
                yield {k: v if k == f else None if rest == 'null' and t[0] == '?' else base[t.lstrip('?')] for k, t in schema.items()}


def cases(rng, tier):
    its = [(n, fixed(s)) for n, s in (('Task', TASK), ('Client', CLIENT))]
    for n, it in its:
        for v in it:
            yield {'kind': n, 'v': v}
    while True:
        n = 'Task' if rng.random() < .8 else 'Client'
        yield {'kind': n, 'v': {k: value(s, rng) for k, s in (TASK if n == 'Task' else CLIENT).items()}}


def real(v, sort):
    return dt.datetime.fromisoformat(v) if v is not None and sort.endswith('time') else json.loads(json.dumps(v)) if sort == 'tag' else v


def same(a, b):
    if isinstance(a, dt.datetime):
        return isinstance(b, dt.datetime) and a.replace(tzinfo=None) == b.replace(tzinfo=None) and a.utcoffset() == b.utcoffset()
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return a == b


def check(case):
    schema, cls = (TASK, Task) if case['kind'] == 'Task' else (CLIENT, Client)
    vals = {k: real(case['v'][k], s) for k, s in schema.items()}
    t = cls(**vals)
    data = t.pack()
    if not isinstance(data, bytes):
        return 'encoding: not bytes'
    u = cls.unpack(data)
    for k, s in schema.items():
        got = getattr(u, k)
        if not same(vals[k], got):
            return f'field {k}: {case["kind"]}.{k} {vals[k]!r} became {got!r}'
        if not same(real(case['v'][k], s), getattr(t, k)):
            return f'encoding modified {k}: {getattr(t, k)!r}'
    if type(u) is not cls:
        return f'decoded as {type(u).__name__}'
    v = cls.unpack(u.pack())
    for k in schema:
        if not same(vals[k], getattr(v, k)):
            return f'second trip {k}: {getattr(v, k)!r}'
