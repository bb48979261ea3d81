"""C12 on the real code: Receiver and Confirm under scripted queues against a real database."""
import io
import itertools
import json
import random
from concrete import lib, dblib
from concrete.lib import CLOCK, InQ, Stop, Obj, run_machine
from concrete.dblib import *
from hypershell import server as S
from hypershell.client import ClientInfo

STATUS = [0, 1, 0, 127, -9, None, -1, 2]


def cases(rng, tier):
    for statuses in itertools.product([0, 1, -9], repeat=3):
        for mem in (False, True):
            for fail in (False, True):
                yield {'kind': 'recv', 'bundles': [list(statuses[:2]), [], list(statuses[2:])], 'empties': [1, 0, 2, 1], 'mem': mem, 'fail': fail, 'seed': 1}
    for sizes in ([1], [3, 1], [2, 2, 2], [0, 1], []):
        for mem in (False, True):
            yield {'kind': 'conf', 'sizes': sizes, 'empties': [0, 2, 1, 0], 'mem': mem, 'seed': 2}
    for nc in (0, 1):
        for mem in (0, 1):
            yield {'kind': 'wiring', 'mem': mem, 'nc': nc}
    while True:
        n = rng.randint(0, 4)
        if rng.random() < .6:
            yield {'kind': 'recv', 'bundles': [[rng.choice(STATUS) for _ in range(rng.randint(1, 4))] for _ in range(n)], 'empties': [rng.choice([0, 0, 1, 3]) for _ in range(n + 1)],
                   'mem': rng.random() < .3, 'fail': rng.random() < .7, 'seed': rng.randint(0, 10**6)}
        else:
            yield {'kind': 'conf', 'sizes': [rng.randint(1, 4) for _ in range(n)], 'empties': [rng.choice([0, 0, 2]) for _ in range(n + 1)], 'mem': rng.random() < .3, 'seed': rng.randint(0, 10**6)}


def script(items, empties):
    out = []
    for k, x in enumerate(items):
        out += [('empty', 0)] * (empties[k] if k < len(empties) else 0) + [('item', x)]
    return out + [('empty', 0)] * 2 + [('end',)]


def after():
    raise Stop('reads on after the end marker')


def check_recv(case):
    wipe()
    rng = random.Random(case['seed'])
    bundles, want, lines, i = [], {}, [], 0
    for b in case['bundles']:
        if not b:
            continue
        out = []
        for st in b:
            i += 1
            row = make(i, 'running', rng)
            stale = rng.random() < .4                 # values of an earlier run that the result does not repeat
            if stale:
                row.update(outpath=f'/old{i}', errpath=f'/olde{i}', duration=99, waited=98, exit_status=7,
                           completion_time='2024-02-01 01:00:00.000000')
            row['args'] = rng.choice([f'echo {i}', ' spaced  ', '2024-01-01', 'x "y"', '%s', '{}']) + f'#{i}'
            put([row])
            t = Task.from_id(row['id'])
            Session.expunge(t)
            if stale:
                t.errpath = None
            t.exit_status, t.command, t.outpath, t.duration, t.waited = st, f'cmd {i}', f'/o{i}', 3, 4
            t.start_time = dt.datetime(2024, 3, 1, 13, 0, i % 60, tzinfo=dt.timezone.utc)
            t.completion_time = dt.datetime(2024, 3, 1, 13, 1, i % 60, 5, tzinfo=dt.timezone.utc)
            want[row['id']] = dict(row, exit_status=st, command=f'cmd {i}', outpath=f'/o{i}', duration=3, waited=4,
                                   start_time=f'2024-03-01 13:00:{i % 60:02d}.000000', completion_time=f'2024-03-01 13:01:{i % 60:02d}.000005')
            if stale:
                t.outpath = t.duration = t.completion_time = None
                want[row['id']].update(outpath=None, errpath=None, duration=None, completion_time=None)
            out.append(t.pack())
            if st != 0:
                lines.append(row['args'])
        bundles.append(out)
    other = make(900, 'running', rng)
    put([other])
    want[other['id']] = other
    before = table()
    q = InQ(script(bundles, case['empties']), after=after)
    fail = io.StringIO() if case['fail'] else None
    m = S.Receiver(queue=Obj(completed=q), in_memory=case['mem'], redirect_failures=fail)
    run_machine(m)
    Session.rollback()
    if q.i != len(q.script):
        return 'receiver: stopped before the end marker'
    got = table()
    if case['mem']:
        if got != before:
            return 'receiver: database changed although disabled'
    elif got != want:
        d = {i[:8]: {k: (got.get(i, {}).get(k), v) for k, v in r.items() if got.get(i, {}).get(k) != v} for i, r in want.items() if got.get(i) != r}
        return f'receiver: database differs from the returned values (got, want): {d}'
    if fail is not None and fail.getvalue() != ''.join(l + '\n' for l in lines):
        return f'failures: wrote {fail.getvalue()!r} for failed tasks {lines!r}'


def check_conf(case):
    wipe()
    rng = random.Random(case['seed'])
    items, want, i = [], {}, 0
    for n in case['sizes']:
        if not n:
            continue
        rows = []
        for _ in range(n):
            i += 1
            rows.append(make(i, 'scheduled', rng))
            if rng.random() < .4:                     # handed to another client before
                rows[-1].update(client_id=tid(5000), client_host='host-old')
        put(rows)
        cid, host = tid(3000 + len(items)), f'host-{len(items)}'
        for r in rows:
            want[r['id']] = dict(r, client_id=cid, client_host=host)
        items.append(ClientInfo(client_id=cid, client_host=host, task_ids=[r['id'] for r in rows]).pack())
    extra = make(800, 'scheduled', rng)
    put([extra])
    want[extra['id']] = extra
    before = table()
    q = InQ(script(items, case['empties']), after=after)
    m = S.Confirm(queue=Obj(confirmed=q), in_memory=case['mem'])
    run_machine(m)
    Session.rollback()
    if q.i != len(q.script):
        return 'confirm: stopped before the end marker'
    got = table()
    if got != (before if case['mem'] else want):
        return 'confirm: assignments in the database differ from the confirmations'


def check_wiring(case):
    made = {}
    names = ['SchedulerThread', 'SubmitThread', 'ConfirmThread', 'ReceiverThread', 'HeartMonitorThread', 'QueueServer']
    old = {n: getattr(S, n) for n in names}
    try:
        for n in names:
            def mk(*a, _n=n, **k):
                made[_n] = (a, k)
                return Obj(name=_n)
            setattr(S, n, mk)
        f = io.StringIO()
        S.ServerThread(in_memory=bool(case['mem']), no_confirm=bool(case['nc']), redirect_failures=f, max_retries=0)
    finally:
        for n, v in old.items():
            setattr(S, n, v)
    import inspect
    def args(n):
        b = inspect.signature(old[n].__init__).bind(None, *made[n][0], **made[n][1])
        b.apply_defaults()
        return b.arguments
    a = args('ReceiverThread')
    if a['redirect_failures'] is not f or a['in_memory'] is not bool(case['mem']):
        return 'wiring: receiver options'
    if ('ConfirmThread' in made) != (not case['nc']):
        return 'wiring: confirm thread'
    if not case['nc'] and args('ConfirmThread')['in_memory'] is not bool(case['mem']):
        return 'wiring: confirm options'


def check(case):
    return globals()['check_' + case['kind']](case)
