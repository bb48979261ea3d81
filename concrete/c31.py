"""C31 on the real code: the task commands print the recorded values, and nothing else."""
import contextlib
import csv
import io
import json
import os
import random
import datetime as dt
from concrete import lib
lib.setup(fake_clock=False, dbfile=os.path.join(lib.scratch(), f'db.{os.getpid()}.sqlite'))
from concrete.dblib import *
import hypershell
import hypershell.task as T
import yaml
import subprocess
import sys

os.environ['COLUMNS'] = '5000'
TEXTS = ['echo 1', 'echo "x"', '"quoted"', '"', 'caf\u00e9 \u4e16', 'a\\b [red]x[/red] y', 'ls [/tmp]', 'tab\tx,y', 'x' * 150, "it's", 'null', '0', '{"a": 1}', 'a,b;c|d', 'true', '2024-01-01', '$(x) `y`', 'two\nlines', 'back\\', '', '[bold]']
TAGS = [{}, {'a': 1}, {'a': 0, 'b': False, 'c': None, 'd': ''}, {'k': 'v', 'n': None, 'x': 1.5}, {'flag': True}, {'z.1': 'a-b', 'a': 'x'}, {'a': ''}]
FORMATS = ['json', 'csv', 'plain', 'table', 'normal', None]


def rows(rng, n):
    out = []
    for i in range(n):
        r = make(1 + i, rng.choice(STATES), rng, submit=i)
        r['args'] = rng.choice(TEXTS)
        if r['command'] is not None:
            r['command'] = rng.choice(TEXTS)
        for f in ('waited', 'duration'):
            if r[f] is not None:
                r[f] = rng.choice([0, 1, 59, 3600, 90061])
        if r['exit_status'] is not None and rng.random() < 0.2:
            r['exit_status'] = rng.choice([0, 1, 255, -1])
        r['tag'] = rng.choice(TAGS)
        out.append(r)
    return out


def cases(rng, tier):
    base = {'n': 5, 'limit': None, 'desc': False, 'delimiter': None}
    k = 0
    for f in FORMATS:
        for fields in (None, ['args'], ['tag', 'id'], ['exit_status', 'retried', 'args'], ['submit_time', 'waited', 'duration'], ['command', 'args', 'tag']):
            if f == 'normal' and fields or f == 'table' and fields is None:
                continue
            for s in range(3):
                k += 1
                yield dict(base, kind='search', format=f, fields=fields, seed=k)
    for n in (0, 1, 7):
        yield dict(base, kind='search', format='json', fields=['id'], n=n, seed=1)
        yield dict(base, kind='search', format=None, fields=None, n=n, seed=1)
        yield dict(base, kind='count', n=n, limit=None, seed=n)
        yield dict(base, kind='count', n=n, limit=3, seed=n)
    for d in ('|', ',', ';', '::', '\t', ' ', 'x' * 100):
        for f in ('csv', 'plain', None)[len(d) > 1:]:
            yield dict(base, kind='search', format=f, fields=['args', 'exit_status', 'tag'], delimiter=d, seed=5)
    for f in ('json', 'yaml', 'normal', None):
        for s in range(6):
            yield {'kind': 'info', 'format': f, 'field': None, 'n': 3, 'seed': s}
    for field in COLS:
        for f in (None, 'json', 'yaml'):
            for s in range(3):
                yield {'kind': 'info', 'format': f, 'field': field, 'n': 3, 'seed': 100 + s}
    for s in range(4):
        yield {'kind': 'tags', 'n': 6, 'seed': s}
    for argv in (['echo', '1'], ['echo "x"'], ['a  b', 'c'], ['x']):
        for tags in (None, [], ['a:1'], ['k', 'x:y-z', 'n:null', 'b:true']):
            yield {'kind': 'submit', 'argv': argv, 'tags': tags, 'n': 2, 'seed': 1}
            yield {'kind': 'run', 'argv': argv, 'tags': tags, 'n': 2, 'seed': 1, 'polls': len(argv)}
    for which in ('--stdout', '--stderr'):
        for content in ('', 'one\ntwo\n', 'no newline', 'caf\u00e9\n', 'x\n' * 50000):
            for where in ('here', 'remote', 'none', 'copied', 'partly'):
                yield {'kind': 'file', 'which': which, 'content': content, 'where': where}
    for bad in (['args', '-f', 'normal'], ['args', '--json', '-d', '|'], ['args', '-f', 'table', '-d', '|'], ['args', '--csv', '-d', '||'], ['args', '-d', 'x' * 101],
                ['nope'], ['args', 'nope'], ['-f', 'normal', '-d', '|'], ['a', 'b', '--tag-values'], ['args', '-f', 'xml'], ['--json', '--csv'], ['__table__'], ['query']):
        yield {'kind': 'bad', 'argv': bad, 'n': 3, 'seed': 2}
    for bad in ([tid(999)], ['x'], [tid(1), '-x', 'nope'], [tid(1), '-f', 'csv'], [tid(1), '--stdout', '--stderr'], [tid(1) + '0', '--json'], [tid(999), '-x', 'args'], [tid(999), '--stdout']):
        yield {'kind': 'badinfo', 'argv': bad, 'n': 3, 'seed': 2}
    while True:
        r = rng.random()
        if r < 0.5:
            f = rng.choice(FORMATS)
            fields = None if f == 'normal' or rng.random() < 0.15 and f != 'table' else rng.sample(COLS, rng.randint(1, 5))
            if fields == COLS:
                fields = None
            d = rng.choice([None, None, '|', ';', '::']) if f in ('plain', 'csv') or f is None and fields else None
            yield dict(base, kind='search', format=f, fields=fields, n=rng.randint(0, 8), limit=rng.choice([None, None, 1, 3]), desc=rng.random() < 0.3,
                       delimiter=d if f != 'csv' or not d or len(d) == 1 else None, seed=rng.randint(0, 10**6))
        elif r < 0.85:
            yield {'kind': 'info', 'format': rng.choice(['json', 'yaml', 'normal', None]), 'field': rng.choice([None, None] + COLS), 'n': rng.randint(1, 5), 'seed': rng.randint(0, 10**6)}
        elif r < 0.95:
            yield {'kind': 'tags', 'n': rng.randint(0, 8), 'seed': rng.randint(0, 10**6)}
        else:
            yield dict(base, kind='count', n=rng.randint(0, 9), limit=None, seed=rng.randint(0, 10**6))


def call(argv, app=None):
    out, err = io.StringIO(), io.StringIO()
    out.name, err.name = '<stdout>', '<stderr>'
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            r = hypershell.HyperShellApp.main(['task'] + argv) if app is None else app.main(argv)
        except SystemExit as e:
            r = e.code
        except Exception as e:
            r = f'{type(e).__name__}: {e}'
    Session.rollback()
    return r, out.getvalue(), err.getvalue()


TIMES = ('submit_time', 'schedule_time', 'start_time', 'completion_time')


def recorded(r):
    """The row as JSON values."""
    d = {c: r[c] for c in COLS}
    for f in TIMES:
        if d[f] is not None:
            d[f] = dt.datetime.strptime(d[f], '%Y-%m-%d %H:%M:%S.%f').isoformat(sep=' ')
    d['retried'] = bool(d['retried'])
    return d


def same(a, b):
    return json.dumps(a) == json.dumps(b)


def inner(v):
    return json.dumps(v)[1:-1] if isinstance(v, str) else json.dumps(v)


def tagtext(t):
    return ', '.join(k if v == '' else f'{k}:{v}' for k, v in t.items())


def normal(r):
    d = recorded(r)
    span = lambda n: 'null' if d[n] is None else str(dt.timedelta(seconds=d[n]))
    x = {k: inner(v) for k, v in d.items()}
    return [f'id: {x["id"]}', f'args: {x["args"]}'.rstrip(' '), f'command: {x["command"]}'.rstrip(' '), f'exit_status: {x["exit_status"]}', f'submitted: {x["submit_time"]}', f'scheduled: {x["schedule_time"]}',
            f'started: {x["start_time"]} (waited: {span("waited")})', f'completed: {x["completion_time"]} (duration: {span("duration")})',
            f'submit_host: {x["submit_host"]} ({x["submit_id"]})', f'server_host: {x["server_host"]} ({x["server_id"]})', f'client_host: {x["client_host"]} ({x["client_id"]})',
            f'attempt: {x["attempt"]}', f'retried: {x["retried"]}', f'outpath: {x["outpath"]}', f'errpath: {x["errpath"]}', f'previous_id: {x["previous_id"]}', f'next_id: {x["next_id"]}',
            f'tags: {tagtext(d["tag"])}'.rstrip(' ')]


def block(lines):
    return [l.strip() for l in lines]


def check(case):
    wipe()
    return globals()['check_' + case['kind']](case)


def check_search(case):
    data = rows(random.Random(case['seed']), case['n'])
    put(data)
    argv = ['search'] + (case['fields'] or []) + ['-s', 'submit_time'] + (['--desc'] if case['desc'] else [])
    argv += ['-f', case['format']] if case['format'] else []
    argv += ['-l', str(case['limit'])] if case['limit'] else []
    argv += ['-d', case['delimiter']] if case['delimiter'] else []
    found = list(reversed(data)) if case['desc'] else data
    found = [recorded(r) for r in found[:case['limit']]]
    raw = {r['id']: r for r in data}
    fields = case['fields'] or COLS
    before = table()
    status, out, err = call(argv)
    if status != 0:
        return f'search: exit status {status} for {argv}: {err[:200]}'
    if table() != before:
        return 'search: changes the database'
    f = case['format'] or ('plain' if case['fields'] else 'normal')
    if f == 'json':
        try:
            got = json.loads(out)
        except ValueError:
            return f'json: not JSON: {out[:200]!r}'
        if not same(got, [{k: r[k] for k in fields} for r in found]):
            return f'json: prints {json.dumps(got)[:300]} for {json.dumps([{k: r[k] for k in fields} for r in found])[:300]}'
    elif f == 'csv':
        got = list(csv.reader(io.StringIO(out, newline=''), delimiter=case['delimiter'] or ','))
        want = [fields] + [[r[k] if isinstance(r[k], str) else json.dumps(r[k]) for k in fields] for r in found]
        if [x for x in got if x] != want and got != want:
            return f'csv: reads back as {got} instead of {want}'
    elif f == 'plain':
        d = case['delimiter'] or '\t'
        want = ''.join(d.join(inner(r[k]) for k in fields) + '\n' for r in found)
        if out != want:
            return f'plain: prints {out[:300]!r} instead of {want[:300]!r}'
    elif f == 'table':
        lines = [[c.strip() for c in l.split('\u2502')[1:-1]] for l in out.splitlines() if l.startswith('\u2502')]
        head = [[c.strip() for c in l.split('\u2503')[1:-1]] for l in out.splitlines() if l.startswith('\u2503')]
        want = [[inner(r[k]).strip() for k in fields] for r in found]
        if head != [fields]:
            return f'table: columns {head} instead of {fields}'
        if lines != want:
            return f'table: rows {lines} instead of {want}'
    else:
        got = out.split('---\n')
        if got[0].strip():
            return f'normal: starts with {got[0]!r}'
        got = [block(b.splitlines()) for b in got[1:]]
        want = [block(normal(raw[r['id']])) for r in found]
        if got != want:
            return f'normal: prints {got[:2]} instead of {want[:2]}'


def check_count(case):
    data = rows(random.Random(case['seed']), case['n'])
    put(data)
    status, out, err = call(['search', '--count'] + (['-l', str(case['limit'])] if case['limit'] else []))
    want = min(case['n'], case['limit'] or case['n'])
    if status != 0 or out != f'{want}\n':
        return f'count: status {status}, prints {out!r} for {want} tasks'


def check_info(case):
    rng = random.Random(case['seed'])
    data = rows(rng, case['n'])
    put(data)
    r = data[rng.randrange(len(data))]
    d = recorded(r)
    argv = ['info', r['id']] + (['-f', case['format']] if case['format'] else []) + (['-x', case['field']] if case['field'] else [])
    before = table()
    status, out, err = call(argv)
    if status != 0:
        return f'info: exit status {status} for {argv}: {err[:200]}'
    if table() != before:
        return 'info: changes the database'
    f = case['format'] or 'normal'
    if case['field'] and (case['field'] != 'tag' or f == 'normal'):
        v = d[case['field']]
        want = tagtext(v) if case['field'] == 'tag' else v if isinstance(v, str) else json.dumps(v)
        if out != want + '\n':
            return f'info: -x {case["field"]} prints {out!r} instead of {want!r}'
        return None
    want = d['tag'] if case['field'] else d
    if f == 'normal':
        if block(out.splitlines()) != block(normal(r)):
            return f'info: prints {block(out.splitlines())} instead of {block(normal(r))}'
        return None
    try:
        got = json.loads(out) if f == 'json' else yaml.safe_load(out)
    except Exception as e:
        return f'info: {f} output does not parse: {e}'
    if not same(got, want):
        return f'info: {f} reads back as {json.dumps(got)[:300]} instead of {json.dumps(want)[:300]}'


def check_tags(case):
    data = rows(random.Random(case['seed']), case['n'])
    put(data)
    status, out, err = call(['search', '--tag-keys'])
    want = sorted({k for r in data for k in r['tag']})
    if status != 0 or sorted(out.splitlines()) != want:
        return f'tags: --tag-keys gives {status} {sorted(out.splitlines())} instead of {want}'
    for name in ('a', 'k', 'x', 'z.1', 'nope'):
        status, out, err = call(['search', name, '--tag-values'])
        vals = [r['tag'][name] for r in data if name in r['tag']]
        if any(v is None or isinstance(v, bool) for v in vals):
            continue                       # how these are shown is not fixed
        want = sorted({(type(v).__name__, str(v)) for v in vals})
        if status != 0 or sorted(out.splitlines()) != sorted(v for _, v in want):
            return f'tags: --tag-values {name} gives {status} {sorted(out.splitlines())} instead of {want}'


def check_submit(case):
    data = rows(random.Random(case['seed']), case['n'])
    put(data)
    before = table()
    argv = ['submit'] + (['-t'] + case['tags'] if case['tags'] is not None else []) + ['--'] + case['argv']
    status, out, err = call(argv)
    after = table()
    new = [k for k in after if k not in before]
    if status != 0 or len(new) != 1 or {k: after[k] for k in before} != before:
        return f'submit: status {status}, {len(new)} new tasks'
    if out != new[0] + '\n':
        return f'submit: prints {out!r}, the task is {new[0]}'
    return new_task(after[new[0]], case)


PARSED = {'a:1': ('a', 1), 'k': ('k', ''), 'x:y-z': ('x', 'y-z'), 'n:null': ('n', None), 'b:true': ('b', True)}


def new_task(r, case):
    if r['args'] != ' '.join(case['argv']).strip():
        return f'submit: arguments {r["args"]!r} for {case["argv"]}'
    want = dict(PARSED[t] for t in case['tags'] or [])
    if json.dumps(r['tag']) != json.dumps(want):
        return f'submit: tags {r["tag"]} for {case["tags"]}'
    if any(r[f] is not None for f in ('schedule_time', 'server_id', 'client_id')) or r['attempt'] != 1:
        return 'submit: the task is not a new one'


def check_run(case):
    data = rows(random.Random(case['seed']), case['n'])
    put(data)
    before = table()
    st = {'n': 0, 'files': [], 'early': None}
    def sleep(n):
        st['n'] += 1
        if n != 7:
            st['early'] = f'pauses {n} s instead of 7'
        new = [k for k in table() if k not in before]
        if len(new) != 1:
            raise lib.Stop(f'{len(new)} tasks submitted')
        if st['n'] > case['polls']:
            for x in ('out', 'err'):
                p = os.path.join(T.default_path.lib, 'task', f'{new[0]}.{x}')
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'w') as f:
                    f.write(f'{x} of the task\n')
                st['files'].append(p)
            sql('update task set exit_status = 0, completion_time = ?, outpath = ?, errpath = ?, client_host = ? where id = ?', ts(500), st['files'][0], st['files'][1], T.HOSTNAME, new[0])
        if st['n'] > case['polls'] + 2:
            raise lib.Stop('goes on waiting')
    real, T.time.sleep = T.time.sleep, sleep
    try:
        status, out, err = call(['run', '-n', '7'] + (['-t'] + case['tags'] if case['tags'] is not None else []) + ['--'] + case['argv'])
    except lib.Stop as e:
        return f'run: {e}'
    finally:
        T.time.sleep = real
        for p in st['files']:
            os.unlink(p)
    after = table()
    new = [k for k in after if k not in before]
    if status != 0 or len(new) != 1:
        return f'run: status {status}, {len(new)} new tasks: {err[:200]}'
    if st['early']:
        return f'run: {st["early"]}'
    if out != 'out of the task\n' or err != 'err of the task\n':
        return f'run: prints {out!r} and {err!r}'
    r = after[new[0]]
    return new_task(dict(r), case)


def check_file(case):
    r = make(1, 'ok', random.Random(1))
    r['client_host'] = T.HOSTNAME if case['where'] == 'here' else 'elsewhere'
    local = {x: os.path.join(T.default_path.lib, 'task', f'{r["id"]}.{x}') for x in ('out', 'err')}
    r['outpath'], r['errpath'] = (None, None) if case['where'] == 'none' else (local['out'], local['err']) if case['where'] == 'here' else ('/remote/o', '/remote/e')
    put([r])
    os.makedirs(os.path.dirname(local['out']), exist_ok=True)
    mine, other = ('out', 'err') if case['which'] == '--stdout' else ('err', 'out')
    content = {mine: case['content'], other: 'other stream\n'}
    fetched = []
    import hypershell.core.remote as R
    open_ = []
    class Sftp:
        def __init__(self, host):
            self.host = host
        def get(self, a, b, *x, **k):
            fetched.append((self.host, a, b))
            with open(b, 'w') as f:
                f.write(content[mine] if a == {'out': '/remote/o', 'err': '/remote/e'}[mine] else content[other])
        def close(self):
            pass
    class Client:
        def set_missing_host_key_policy(self, p):
            pass
        def connect(self, hostname, **k):
            self.host = hostname
            open_.append(self)
        def open_sftp(self):
            return Sftp(self.host)
        def close(self):
            open_.remove(self)
    if case['where'] in ('here', 'copied'):
        for x, p in local.items():
            with open(p, 'w') as f:
                f.write(content[x])
    if case['where'] == 'partly':
        with open(local[other], 'w') as f:
            f.write(content[other])
    real, R.SSHClient = R.SSHClient, Client
    try:
        status, out, err = call(['info', r['id'], case['which']])
    finally:
        R.SSHClient = real
        for p in local.values():
            if os.path.exists(p):
                os.unlink(p)
    if case['where'] == 'none':
        return None if status not in (0, None) and not out else f'file: status {status} for a task without output file'
    shown, silent = (out, err) if mine == 'out' else (err, out)
    if status != 0 or shown != case['content'] or silent:
        return f'file: status {status}, prints {shown[:100]!r} for {case["content"][:100]!r} ({case["where"]})'
    if open_:
        return 'file: the connection is left open'
    if case['where'] == 'copied' and fetched:
        return 'file: fetches a file that is already here'
    if any(h != 'elsewhere' for h, _, _ in fetched):
        return f'file: fetched from {fetched}'


def check_bad(case):
    put(rows(random.Random(case['seed']), case['n']))
    before = table()
    status, out, err = call(['search'] + case['argv'])
    if status in (0, None) or isinstance(status, str) or out:
        return f'rejected: {case["argv"]} gives status {status!r} and {out[:100]!r}'
    if table() != before:
        return 'rejected: changes the database'


def check_badinfo(case):
    put(rows(random.Random(case['seed']), case['n']))
    status, out, err = call(['info'] + case['argv'])
    if status in (0, None) or isinstance(status, str) or out:
        return f'rejected: info {case["argv"]} gives status {status!r} and {out[:100]!r}'
