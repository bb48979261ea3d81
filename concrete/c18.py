"""C18 on the real code: the autoscaler under scripted clients, load and clocks, and pressure on a real database."""
import itertools
import os
import random
from concrete import lib, dblib
from concrete.lib import CLOCK, Stop
from concrete.dblib import *
import hypershell.cluster.remote as R

SRV = [tid(7777), tid(7778)]


def cases(rng, tier):
    for pol, (i, mn, mx) in itertools.product(['fixed', 'dynamic'], [(0, 0, 1), (1, 0, 2), (2, 1, 2), (3, 2, 1), (1, 3, 5)]):
        for load in ('idle', 'busy', 'mixed'):
            yield {'kind': 'scale', 'policy': pol, 'init': i, 'min': mn, 'max': mx, 'period': 3, 'steps': 60, 'load': load, 'seed': 1, 'exit': .1}
    for n in range(8):
        yield {'kind': 'pressure', 'rows': n, 'seed': n, 'factor': 1.0}
    while True:
        if rng.random() < .5:
            yield {'kind': 'scale', 'policy': rng.choice(['fixed', 'dynamic', 'dynamic']), 'init': rng.randint(0, 12), 'min': rng.randint(0, 5), 'max': rng.randint(1, 14),
                   'period': rng.choice([0, 1, 2, 5, 10, 60]), 'steps': rng.randint(5, 300), 'load': rng.choice(['idle', 'busy', 'mixed']), 'seed': rng.randint(0, 10**6), 'exit': rng.choice([0, .02, .1, .4])}
        else:
            yield {'kind': 'pressure', 'rows': rng.randint(0, 25), 'seed': rng.randint(0, 10**6), 'factor': rng.choice([.5, 1.0, 2.0, 10.0])}


def check(case):
    return scale(case) if case['kind'] == 'scale' else pressure(case)


class Proc:
    n = 0
    def __init__(self):
        Proc.n += 1
        self.pid, self.status = 1000 + Proc.n, None
    def poll(self):
        return self.status
    @property
    def returncode(self):
        return self.status


def scale(case):
    rng = random.Random(case['seed'])
    procs, bad = [], []
    world = {'tasks': 0, 'pressure': None, 'new': 0}
    argv = ['launch', 'hs', 'client', '-x']
    env = {'HYPERSHELL_MARK': 'x'}
    last = [CLOCK.t]
    sleeps = [0]

    def popen(args, **kw):
        if list(args) != argv or kw.get('env') != {**os.environ, **env} or kw.get('shell'):
            bad.append('launch: not the configured client command and environment')
        p = Proc()
        procs.append(p)
        world['new'] += 1
        return p

    def expected(n):
        t, p = world['tasks'], world['pressure']
        if n < case['min']:
            return 1
        if case['policy'] == 'fixed' or p is None:
            return int(n == 0 and t > 0)
        return int(p > 1 and n < case['max'])

    def on_sleep(n):
        sleeps[0] += 1
        new, world['new'] = world['new'], 0
        alive = sum(p.poll() is None for p in procs)
        if sleeps[0] == 1:
            # initial launches, and possibly a first check if the period is zero
            if CLOCK.t - last[0] > case['period']:
                return bad.append('harness: clock moved')
            if new != case['init']:
                bad.append(f'initial: {new} clients launched at first instead of {case["init"]}')
        elif CLOCK.t - last[0] > case['period']:
            last[0] = CLOCK.t
            e = expected(alive - new)
            if new != e:
                bad.append(f'check: {new} launched instead of {e} with {alive - new} running, {world}')
        elif new:
            bad.append('between checks: a client was launched before the period elapsed')
        if case['policy'] == 'dynamic' and alive > max(case['init'], case['min'], case['max']):
            bad.append('bound: more clients than the largest size')
        if bad or sleeps[0] > case['steps']:
            raise Stop('done')
        for p in procs:
            if p.status is None and rng.random() < case['exit']:
                p.status = rng.choice([0, 0, 1, -9])
        if rng.random() < .4:
            world['tasks'] = {'idle': 0, 'busy': rng.randint(1, 99), 'mixed': rng.choice([0, 0, 1, 2, 50])}[case['load']]
            world['pressure'] = {'idle': rng.choice([None, .2, 1.0]), 'busy': rng.choice([1.01, 2.0, 50.0]), 'mixed': rng.choice([None, .5, .999, 1.0, 1.001, 3.0])}[case['load']]
        CLOCK.advance(rng.choice([0, 0, 0, .5, 2, 30]))

    old = {k: getattr(R, k) for k in ('Popen', 'load_task_env')}
    oldt = {k: R.Task.__dict__[k] for k in ('count_remaining', 'task_pressure')}
    oldc = R.Client.__dict__['count_connected']
    factors = []
    try:
        R.Popen, R.load_task_env = popen, lambda: dict(env)
        R.Task.count_remaining = classmethod(lambda cls: world['tasks'])
        R.Task.task_pressure = classmethod(lambda cls, factor: (factors.append(factor), world['pressure'])[1])
        R.Client.count_connected = classmethod(lambda cls: 3)
        CLOCK.on_sleep = on_sleep
        m = R.AutoScaler(list(argv), policy=case['policy'], factor=1.5, period=case['period'], init_size=case['init'], min_size=case['min'], max_size=case['max'])
        try:
            lib.run_machine(m, 100000)
            bad.append('halt: the autoscaler stopped by itself')
        except Stop as e:
            if str(e) != 'done':
                raise
    finally:
        CLOCK.on_sleep = None
        R.Popen, R.load_task_env = old['Popen'], old['load_task_env']
        for k, v in oldt.items():
            setattr(R.Task, k, v)
        R.Client.count_connected = oldc
    if any(f != 1.5 for f in factors):
        bad.append('factor: not the configured factor')
    return bad[0] if bad else None


def pressure(case):
    """Task.task_pressure against its definition, on a real database."""
    wipe()
    rng = random.Random(case['seed'])
    clients = []
    for i, cid in enumerate(CLIENTS):
        gone = rng.random() < .3
        clients.append(dict(id=cid, host='h', server_id=SRV[0], server_host='s', connected_at=ts(0), disconnected_at=ts(900) if gone else None, evicted=0))
    put(clients, 'client')
    rows = []
    for i in range(case['rows']):
        d = make(i, rng.choice(['new', 'scheduled', 'running', 'ok', 'ok', 'failed', 'cancelled_sched']), rng)
        if d['server_id'] is not None:
            late = rng.random() < .8
            d['server_id'] = SRV[0] if late else SRV[1]
            d['schedule_time'] = ts((1000 if late else 10) + i)
        if d['completion_time']:
            s = rng.randint(1100, 1200)
            d.update(start_time=ts(s), completion_time=ts(s + rng.randint(1, 60)), duration=rng.randint(1, 60))
        rows.append(d)
    put(rows)
    got = Task.task_pressure(case['factor'])
    Session.rollback()
    sched = [r for r in rows if r['schedule_time'] is not None]
    want = None
    if sched:
        server = max(sched, key=lambda r: r['schedule_time'])['server_id']
        on = {c['id'] for c in clients if c['disconnected_at'] is None}
        done = [r for r in rows if r['server_id'] == server and r['completion_time'] and r['client_id'] in on]
        remaining = sum(map(unfinished, rows))
        if done and remaining:
            P = lambda s: dt.datetime.strptime(s, '%Y-%m-%d %H:%M:%S.%f')
            rate = 0
            for c in on:
                mine = [r for r in done if r['client_id'] == c]
                if mine:
                    rate += len(mine) / (max(P(r['completion_time']) for r in mine) - min(P(r['start_time']) for r in mine)).total_seconds()
            avg = sum(r['duration'] for r in done) / len(done)
            want = remaining / rate / (case['factor'] * avg)
    if (got is None) != (want is None):
        return f'pressure: {got} instead of {want}'
    if got is not None and abs(got - want) > 1e-6 * max(1, abs(want)):
        return f'pressure: {got} instead of {want}'
