"""C08 on the real code: escalation of TaskExecutor with scripted processes, signals and clock."""
import itertools
import signal as _sig
from concrete.lib import CLOCK, InQ, OutQ, run_machine, setup, Obj, Stop
from concrete.exec_lib import FakeProc
hs = setup()
from hypershell import client as C
from hypershell.core import signal as SG
from hypershell.data.model import Task


def cases(rng, tier):
    for limit in (None, 0, 1, 2, 5):
        for life in (0.5, 1.4, 4.6, 5.5, 30):
            for react in ({}, {'INT': 0.2}, {'TERM': 0.2}, {'KILL': 0.2}):
                for sw in (0, 2, 3):
                    if limit is None and life > 100:
                        continue
                    yield {'kind': 'run', 'limit': limit, 'tasks': [{'life': life if react else life, 'react': react, 'jitter': []}], 'signalwait': sw, 'usr2': None, 'usr1': None}
    for at in (0.5, 2.2, 3):
        for react in ({}, {'INT': 0.2}, {'TERM': 0.5}, {'KILL': 0}):
            yield {'kind': 'run', 'limit': None, 'tasks': [{'life': 40, 'react': react, 'jitter': []}], 'signalwait': 2, 'usr2': at, 'usr1': None}
            yield {'kind': 'run', 'limit': None, 'tasks': [{'life': 6, 'react': react, 'jitter': []}], 'signalwait': 2, 'usr2': None, 'usr1': at}
    # drift: polls a little longer than a second
    for limit in (5, 20, 59.5):
        yield {'kind': 'run', 'limit': limit, 'tasks': [{'life': 100, 'react': {'INT': 0}, 'jitter': [0.011] * 200}], 'signalwait': 2, 'usr2': None, 'usr1': None}
        yield {'kind': 'run', 'limit': limit, 'tasks': [{'life': 100, 'react': {'INT': 0}, 'jitter': [0.06] * 200}], 'signalwait': 2, 'usr2': None, 'usr1': None}
    # state of one task must not leak into the next
    for r1, r2 in itertools.product(({'INT': 0.1}, {'TERM': 0.1}, {'KILL': 0.1}), repeat=2):
        yield {'kind': 'run', 'limit': 3, 'tasks': [{'life': 50, 'react': r1, 'jitter': []}, {'life': 1.5, 'react': r2, 'jitter': []}, {'life': 50, 'react': r2, 'jitter': []}], 'signalwait': 2, 'usr2': None, 'usr1': None}
    while True:
        n = rng.randint(1, 3)
        yield {'kind': 'run', 'limit': rng.choice([None, 0, 1, 3, 7, 12]), 'signalwait': rng.choice([0, 1, 2, 5, 10]),
               'usr2': rng.choice([None, None, 0.1, 3.3, 8]), 'usr1': rng.choice([None, None, None, 2]),
               'tasks': [{'life': rng.choice([0.2, 1.0, 3.4, 9, 25, 60]), 'react': rng.choice([{}, {'INT': 0.1}, {'INT': 3}, {'TERM': 0.4}, {'KILL': 0.1}, {'KILL': 2.5}]),
                          'jitter': [rng.choice([0, 0.01, 0.3, 0.7]) for _ in range(90)]} for _ in range(n)]}


def check(case):
    SG.RECEIVED = None
    base = CLOCK.t
    tasks = [Task.new(args=f'{i}') for i in range(len(case['tasks']))]
    inq = InQ([('item', t, 0.1) for t in tasks] + [('end',)])
    outq = OutQ([])
    procs = []
    gaveup = {'n': 0}
    def popen(cmd, **kw):
        s = case['tasks'][len(procs)]
        p = FakeProc(s['life'], 0, s['react'], s['jitter'])
        p.sig_hist = []
        procs.append(p)
        return p
    def sigcheck():
        el = CLOCK.t - base
        r = None
        if case['usr1'] is not None and el >= case['usr1']:
            r = _sig.SIGUSR1
        if case['usr2'] is not None and el >= case['usr2']:
            r = _sig.SIGUSR2
        return r
    class Tm:
        def __init__(self, t): pass
        def expand(self, a): return a
    saved = C.Popen, C.task_env, C.Template, C.check_signal
    C.Popen, C.task_env, C.Template, C.check_signal = popen, (lambda t: {}), Tm, sigcheck
    limit, w = case['limit'], case['signalwait']
    try:
        m = C.TaskExecutor(id=1, inbound=inq, outbound=outq, template='t', timeout=limit, signalwait=w)
        run_machine(m, 5000)
        halt = CLOCK.t
    finally:
        C.Popen, C.task_env, C.Template, C.check_signal = saved
    e = 1e-6
    usr2_at = None if case['usr2'] is None else base + case['usr2']
    for i, p in enumerate(procs):
        names = [s[0] for s in p.signals]
        if names != ['INT', 'TERM', 'KILL'][:len(names)]:
            return f'order: signals {names}'
        stop = None
        for name, at, dead in p.signals:
            if name == 'INT':
                why = (limit is not None and at - p.start >= limit - e) or (usr2_at is not None and at >= usr2_at - e)
                if not why:
                    return f'interrupt: after {at - p.start} s with limit {limit}'
                stop = at
            if name == 'TERM' and at - stop < w - e:
                return f'terminate: {at - stop} s after the interrupt with signal wait {w}'
            if name == 'KILL' and at - stop < 2 * w - e:
                return f'kill: {at - stop} s after the interrupt with signal wait {w}'
        # the limit and the waits are enforced at the next poll
        for t in p.polls:
            upto = [s for s in p.signals if s[1] <= t + e]
            if not [s for s in p.signals if s[1] <= t + e] and ((limit is not None and t - p.start >= limit + e) or (usr2_at is not None and t >= usr2_at + e)):
                return f'enforcement: still no interrupt {t - p.start} s after the start with limit {limit}'
            for k in (1, 2):
                if stop is not None and len(upto) == k and t - stop >= k * w + e and t > upto[-1][1] + e:
                    return f'enforcement: signal {k + 1} missing {t - stop} s after the interrupt'
        if p.ended_at is None:
            # given up
            if i != len(procs) - 1:
                return 'give-up: takes another task'
            if names != ['INT', 'TERM', 'KILL']:
                return f'give-up: after {names}'
            if halt - stop < 3 * w - e:
                return f'give-up: after {halt - stop} s with signal wait {w}'
