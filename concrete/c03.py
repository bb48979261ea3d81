"""C03 on the real code: loader and committer machines under scripted queues and clock against a
real sqlite database, the whole SubmitThread with real threads, and the submit_from / SubmitApp API."""
import itertools
import os
import queue
import random
from concrete import lib
from concrete.lib import CLOCK, InQ, OutQ, run_machine, setup, Stop

hs = setup()
from hypershell import submit as S
from hypershell.data.model import Task, Session
from hypershell.data import initdb
import sqlalchemy as sa
from cmdkit.config import Namespace
initdb()

LINES = ['echo 1', ' echo 2 ', 'a b\n', '\techo "x"\n', '', '   \n', '2024-01-01', 'x' * 300, 'caf\u00e9', '{}', 'echo {}', '%d', '0', 'null', '#']


def wipe():
    Session.rollback()
    Session.execute(sa.delete(Task))
    Session.commit()


def rows():
    Session.expire_all()
    return Session.execute(sa.text('select args, id, tag, submit_time, attempt, retried, schedule_time, exit_status from task order by rowid')).all()


def count():
    return Session.execute(sa.text('select count(*) from task')).scalar()


def cases(rng, tier):
    # exhaustive small committer schedules: 3 arrivals, sizes, gaps around the wait
    for size in (1, 2, 3, 4):
        for n in range(0, 5):
            yield {'kind': 'committer', 'lines': [f'echo {i}' for i in range(n)], 'gaps': [0.1] * n, 'empties': [0] * (n + 1), 'size': size, 'wait': 5}
    for gaps in itertools.product([0.2, 2.4, 4.9, 5.0, 5.1, 11], repeat=3):
        yield {'kind': 'committer', 'lines': ['a', 'b', 'c'], 'gaps': list(gaps), 'empties': [0, 0, 0, 0], 'size': 10, 'wait': 5}
    for em in itertools.product([0, 1, 6], repeat=3):
        yield {'kind': 'committer', 'lines': ['a', 'b'], 'gaps': [0.1, 0.1], 'empties': list(em), 'size': 10, 'wait': 5}
    for n in range(0, 4):
        for full in (0, 1, 3):
            yield {'kind': 'loader', 'lines': LINES[:n], 'fulls': [full] * n, 'template': '{}', 'tags': None}
    yield {'kind': 'thread', 'lines': [f'echo {i}' for i in range(7)], 'size': 3, 'wait': 5, 'template': 'run {}', 'tags': {'a': 1}}
    yield {'kind': 'thread', 'lines': [f'echo {i}' for i in range(5)], 'size': 1, 'wait': 5, 'template': '{}', 'tags': None}
    yield {'kind': 'from', 'lines': [' a\n', 'b'], 'size': 10, 'wait': 5, 'template': 'x {} y', 'tags': {'k': 'v', 'n': None}}
    yield {'kind': 'file', 'lines': ['a', 'b', 'c'], 'size': 2, 'wait': 5, 'template': '{}', 'tags': {'k': 'v'}}
    yield {'kind': 'app', 'lines': ['a', 'b', 'c'], 'size': 2, 'wait': 7, 'template': 'x {}', 'tags': {'k': 'v'}}
    for path in ('file', '-'):
        yield {'kind': 'source', 'path': path, 'lines': ['a', 'b c', 'd'], 'args': ['-b', '2', '--tag', 'k:v']}
        yield {'kind': 'source', 'path': path, 'lines': [], 'args': []}
    for m in (None, '', ':memory:'):
        yield {'kind': 'source', 'path': 'file', 'lines': ['a'], 'args': [], 'memory': m}
    yield {'kind': 'source', 'path': None, 'lines': ['a'], 'args': []}
    for a, b in itertools.product([0.01, 20, 3600, 10**6], repeat=2):
        yield {'kind': 'slow', 'loader': a, 'committer': b}
    while True:
        k = rng.choice(['committer', 'committer', 'loader', 'loader', 'api'])
        n = rng.randint(0, 12)
        lines = [rng.choice(LINES + [f'l{i}']) for i in range(n)]
        if k == 'committer':
            w = rng.choice([0, 1, 5, 30])
            yield {'kind': k, 'lines': lines, 'gaps': [rng.choice([0, 0.1, w / 2, w, w + 0.1]) for _ in range(n)],
                   'empties': [rng.choice([0, 0, 1, 4]) for _ in range(n + 1)], 'size': rng.randint(1, 6), 'wait': w}
        elif k == 'loader':
            yield {'kind': k, 'lines': lines, 'fulls': [rng.choice([0, 0, 1, 2, 5]) for _ in range(n)],
                   'template': rng.choice(['{}', 'echo {}', 'run {/} x', '{.}']), 'tags': rng.choice([None, {}, {'a': 'b'}, {'x': 1, 'y': True, 'z': None}])}
        else:
            yield {'kind': rng.choice(['thread', 'from', 'file']), 'lines': lines, 'size': rng.randint(1, 4), 'wait': rng.choice([0, 5]),
                   'template': rng.choice(['{}', 'echo {}']), 'tags': rng.choice([None, {'a': 'b', 'n': 1.5}])}


def spec_args(line, template):
    a = line.strip()
    e = {'{}': lambda: a, 'echo {}': lambda: 'echo ' + a, 'run {}': lambda: 'run ' + a, 'x {} y': lambda: f'x {a} y', 'x {}': lambda: 'x ' + a,
         'run {/} x': lambda: 'run ' + os.path.basename(a) + ' x', '{.}': lambda: os.path.dirname(a)}[template]()
    return e.strip()


def compare(got, want, what):
    if [g.strip() for g in got] != want:
        return f'{what}: got {got!r} want {want!r}'
    return None


def check(case):
    wipe()
    return globals()['check_' + case['kind']](case)


def check_loader(case):
    q = OutQ(case['fulls'])
    m = S.Loader(source=iter(case['lines']), queue=q, template=case['template'], tags=case['tags'])
    run_machine(m)
    want = [spec_args(l, case['template']) for l in case['lines']]
    if (r := compare([t.args for t in q.items], want, 'loader: tasks handed on')):
        return r
    if len({t.id for t in q.items}) != len(q.items):
        return 'loader: task ids are not distinct'
    if any(t.tag != (case['tags'] or {}) for t in q.items):
        return f'loader: tags differ: {[t.tag for t in q.items]}'
    if m.count != len(case['lines']):
        return f'loader: count {m.count} for {len(case["lines"])} lines'
    if any(t.schedule_time is not None or t.exit_status is not None or t.attempt != 1 or t.retried for t in q.items):
        return 'loader: task is not new'


def check_committer(case):
    script = []
    tasks = [Task.new(args=l or 'blank') for l in case['lines']]
    ids = [t.id for t in tasks]
    for t, g, e in zip(tasks, case['gaps'], case['empties']):
        script += [('empty', 1.0)] * e + [('item', t, g)]
    script += [('empty', 1.0)] * case['empties'][-1] + [('end',)]
    q = InQ(script)
    st = {'buffered': 0, 'last': None, 'due': False, 'bad': None, 'n': 0}
    real = q.get
    def get(*a, **k):
        # state of the database when the next line is asked for
        n = count()
        if st['last'] is None:
            st['last'] = CLOCK.t            # the period starts at the latest when the first line is asked for
        if st['due'] and n != st['n']:
            st['bad'] = st['bad'] or f'flush: {n} of {st["n"]} lines written although the bundle is full or overdue'
        if n > st['seen']:
            st['last'] = CLOCK.t
        st['seen'] = n
        st['due'] = False
        try:
            x = real(*a, **k)
        except queue.Empty:
            st['due'] = st['n'] > n and CLOCK.t - st['last'] >= case['wait'] + 1e-6     # also while no line arrives
            raise
        if x is not None:
            st['n'] += 1
            if st['n'] - n >= case['size'] or CLOCK.t - st['last'] >= case['wait'] + 1e-6:
                st['due'] = True
        return x
    st['seen'] = 0
    q.get = get
    m = S.DatabaseCommitter(queue=q, bundlesize=case['size'], bundlewait=case['wait'])
    run_machine(m)
    got = [r[1] for r in rows()]
    if got != ids:
        return f'committer: {len(got)} rows for {len(ids)} lines, or out of order / duplicated: {got} vs {ids}'
    return st['bad']


def api_rows(case, n=None):
    rs = rows()
    want = [spec_args(l, case['template']) for l in case['lines']]
    if (r := compare([x[0] for x in rs], want, 'database rows')):
        return r
    import json
    tags = [json.loads(x[2]) for x in rs]
    if any(t != (case['tags'] or {}) for t in tags):
        return f'tags in database: {tags}'
    if n is not None and n != len(want):
        return f'count: reported {n} for {len(want)} lines'


def check_thread(case):
    t = S.SubmitThread.new(source=list(case['lines']), bundlesize=case['size'], bundlewait=case['wait'], template=case['template'], tags=case['tags'])
    t.join(30)
    if t.is_alive():
        return 'thread: submission does not end'
    return api_rows(case, t.task_count)


def check_from(case):
    n = S.submit_from(list(case['lines']), bundlesize=case['size'], bundlewait=case['wait'], template=case['template'], tags=case['tags'])
    return api_rows(case, n)


def check_file(case):
    p = os.path.join(lib.scratch(), f'in.{os.getpid()}.txt')
    lines = [l.replace('\n', ' ') for l in case['lines']]
    with open(p, 'w', encoding='utf-8') as f:
        f.write(''.join(l + '\n' for l in lines))
    n = S.submit_file(p, bundlesize=case['size'], bundlewait=case['wait'], template=case['template'], tags=case['tags'])
    return api_rows(dict(case, lines=lines), n)


def check_app(case):
    seen = {}
    def fake(source, **kw):
        seen.update(kw, source=source)
        return len(case['lines'])
    real, S.submit_from = S.submit_from, fake
    try:
        app = S.SubmitApp()
        app.source, app.template, app.bundlesize, app.bundlewait = case['lines'], case['template'], case['size'], case['wait']
        app.taglist = [f'{k}:{v}' for k, v in case['tags'].items()]
        app.run()
    finally:
        S.submit_from = real
    want = {'source': case['lines'], 'template': case['template'], 'bundlesize': case['size'], 'bundlewait': case['wait'], 'tags': case['tags']}
    if {k: seen.get(k) for k in want} != want or app.count != len(case['lines']):
        return f'app: passes {seen}'


def check_source(case):
    """`hs submit` with a file, with standard input, and with neither."""
    import io
    import sys
    p = os.path.join(lib.scratch(), f'src.{os.getpid()}.txt')
    text = ''.join(l + '\n' for l in case['lines'])
    with open(p, 'w', encoding='utf-8') as f:
        f.write(text if case['path'] == 'file' else 'wrong source\n')
    memory = {'provider': 'sqlite'} | ({'file': case['memory']} if case.get('memory') is not None else {})
    db = {'provider': 'sqlite', 'file': 'named.db'} if 'memory' not in case else memory
    conf, S.config = S.config, Namespace({'database': db})
    real, sys.stdin = sys.stdin, io.StringIO(text if case['path'] != 'file' else 'wrong source\n')
    opened = []
    class App(S.SubmitApp):
        def submit_all(self):
            opened.append(self.source)
            super().submit_all()
    try:
        argv = ([p] if case['path'] == 'file' else [case['path']] if case['path'] else []) + case['args']
        status = App.main(argv or ['-'])
        closed = sys.stdin.closed
    finally:
        sys.stdin = real
        S.config = conf
    if 'memory' in case:
        return None if status and not count() else f'source: submission to an in-memory database gives status {status}, {count()} tasks'
    if status != 0:
        return f'source: exit status {status}'
    if (r := api_rows(dict(case, template='{}', tags={'k': 'v'} if '--tag' in case['args'] else {}))):
        return f'source: {r}'
    if closed:
        return 'source: standard input is closed'
    if case['path'] == 'file' and not opened[0].closed:
        return 'source: the file is left open'


def check_slow(case):
    """The end marker goes to the committer only after all input was read, however long that takes, and
    the submission has not ended before the committer has."""
    t = S.SubmitThread(source=[], bundlesize=3, bundlewait=5, template='{}')
    loader, committer = t.loader, t.committer = lib.Slow(case['loader']), lib.Slow(case['committer'])
    bad = []
    def put(item, *a, **k):
        if item is None and loader.needs:
            bad.append(f'end: the end marker is queued with {loader.needs} s of input still to be read')
    t.queue = lib.Obj(put=put)
    t.run_with_exceptions()
    if committer.needs:
        bad.append('end: submission ends while lines are still being written')
    return bad[0] if bad else None
