"""C11 on the real code: the real Scheduler on a real database that other actors change between its statements."""
import itertools
import json
import random
import signal
from concrete import lib, dblib
from concrete.lib import CLOCK, OutQ, Stop, Obj
from concrete.dblib import *
from hypershell import server as S


def cases(rng, tier):
    ev = [[], ['fail 0'], ['finish 0'], ['submit'], ['none', 'fail 0'], ['none', 'none', 'finish 0'], ['none', 'none', 'none', 'fail 0'], ['none'] * 4 + ['fail 0'],
          ['none'] * 5 + ['fail 0'], ['none'] * 6 + ['finish 0'], ['none'] * 3 + ['submit'], ['none'] * 4 + ['submit']]
    for states in (['new'], ['new', 'new'], ['running'], ['failed'], ['ok'], ['cancelled_new'], ['cancelled_sched', 'running'], ['ok', 'running', 'new'], []):
        for mode in ('normal', 'restart', 'forever'):
            for e in ev:
                yield {'kind': 'run', 'states': states, 'seed': 1, 'mode': mode, 'size': 2, 'attempts': 2, 'eager': False, 'fulls': [0, 1, 0], 'events': e, 'source': 0, 'signal': 0}
    for n in (99, 100, 101, 203):
        yield {'kind': 'run', 'states': ['running'] * n + ['new'], 'seed': n, 'mode': ['normal', 'restart', 'forever'][n % 3], 'size': 90, 'attempts': 1, 'eager': False, 'fulls': [], 'events': [], 'source': 0, 'signal': 0}
    for k in range(0, 14):
        yield {'kind': 'run', 'states': ['new'], 'seed': 1, 'mode': 'normal', 'size': 1, 'attempts': 1, 'eager': False, 'fulls': [], 'events': ['finish 0'] + ['none'] * k + ['submit', 'srcdone'], 'source': 1, 'signal': 0}
    for n in range(1, 25):
        yield {'kind': 'run', 'states': ['new'], 'seed': 1, 'mode': 'normal', 'size': 1, 'attempts': 3, 'eager': bool(n % 2), 'fulls': [], 'events': ['none'] * n + ['fail 0'], 'source': 0, 'signal': 0}
    yield {'kind': 'wiring', 'source': True}
    yield {'kind': 'wiring', 'source': False}
    while True:
        yield {'kind': 'run', 'states': [rng.choice(STATES) for _ in range(rng.randint(0, 8))], 'seed': rng.randint(0, 10**6), 'mode': rng.choice(['normal', 'normal', 'restart', 'forever']),
               'size': rng.randint(1, 4), 'attempts': rng.randint(1, 3), 'eager': rng.random() < .5, 'fulls': [rng.choice([0, 0, 1, 3]) for _ in range(5)],
               'events': [rng.choice(['none', 'none', 'none', 'submit', 'finish 0', 'finish 1', 'fail 0', 'fail 0']) for _ in range(rng.randint(0, 25))] + rng.choice([[], ['srcdone']]),
               'source': rng.choice([0, 0, 1]), 'signal': rng.choice([0, 0, 0, 1])}


class Run:
    def __init__(self, case):
        self.case = case
        self.rng = random.Random(case['seed'] + 7)
        self.events = list(case['events'])
        self.source = case['source']
        self.selected, self.posted = [], []
        self.bad = None
        self.ok_moment = False
        self.sleeps = 0
        self.submitted = 0
        self.first = True

    def note(self, what):
        self.bad = self.bad or what

    def tick(self):
        if self.events:
            e = self.events[0]
            try:
                self.apply(e)
                self.events.pop(0)
            except dblib.sqlite3.OperationalError:
                pass
        self.look()

    def look(self):
        rows = table().values()
        if rows and not any(unfinished(r) or retryable(r, self.case['attempts']) for r in rows) and not self.m.source_pending_now():
            self.ok_moment = True

    def apply(self, e):
        if e == 'submit':
            self.submitted += 1
            put([make(1000 + self.submitted, 'new', self.rng, submit=200 + self.submitted)])
        elif e == 'srcdone':
            self.source = False
        elif e.startswith(('finish', 'fail')):
            k = int(e.split()[1])
            run = [r for r in table().values() if interrupted(r) and r['server_id'] == S_ID]
            if len(run) > k:
                st = 0 if e.startswith('finish') else 3
                sql('update task set exit_status=?, completion_time=?, start_time=?, client_id=? where id=?', st, ts(500), ts(400), CLIENTS[0], run[k]['id'])


from hypershell.core.logging import INSTANCE as S_ID


def check_run(case):
    wipe()
    put(states_rows(case['states'], case['seed']))
    R = Run(case)
    before = table()
    out = OutQ(case['fulls'], snap=lambda b: list(b))

    class M(S.Scheduler):
        def source_pending_now(self):
            return bool(R.source)
        source_pending = property(lambda self: bool(R.source), lambda self, v: None)

    m = M(queue=Obj(scheduled=out), bundlesize=case['size'], attempts=case['attempts'], eager=case['eager'], forever_mode=case['mode'] == 'forever', restart_mode=case['mode'] == 'restart')
    R.m = m
    real_next = Task.next
    depth = [0]

    def hook(conn, cursor, statement, *a):
        if statement.lstrip().upper().startswith('SELECT') and depth[0] == 0:
            depth[0] = 1
            try:
                R.tick()
            finally:
                depth[0] = 0

    def next_(*a, **k):
        if R.first:
            R.first = False
            if any(interrupted(r) and r['server_id'] != S_ID for r in table().values()):
                R.note('start: interrupted tasks are still scheduled when the first batch is selected')
        flat = [x for b in out.items for x in b]
        if [json.loads(x)['id'] for x in flat] != [i for i, _ in R.selected]:
            R.note('post: previous batch not posted completely before the next selection')
        ts_ = real_next(*a, **k)
        R.selected += [(t.id, t.pack()) for t in ts_]
        return ts_

    def on_sleep(n):
        R.sleeps += 1
        R.tick()
        if R.sleeps > 12 + len(case['events']):
            raise Stop('runs on')

    Task.next = next_
    event.listen(engine, 'before_cursor_execute', hook)
    CLOCK.on_sleep = on_sleep
    sig, calls = S.check_signal, [0]
    def signal_():
        calls[0] += 1
        return signal.SIGUSR1 if case['signal'] and calls[0] > case['seed'] % 7 + 2 else None
    S.check_signal = signal_
    halted = None
    try:
        for _ in range(400):
            if m.state.name == 'LOAD':
                R.ok_moment = False
                signalled = case['signal'] and calls[0] >= case['seed'] % 7 + 2
            m.state = m.next()
            if m.state.name == 'HALT':
                halted = 'signal' if signalled else 'self'
                break
            R.look()
    except Stop:
        pass
    finally:
        Task.next = real_next
        event.remove(engine, 'before_cursor_execute', hook)
        CLOCK.on_sleep = None
        S.check_signal = sig
        Session.rollback()
    if R.bad:
        return R.bad
    flat = [x for b in out.items for x in b]
    if any(not b for b in out.items):
        return 'post: empty bundle posted'
    sel = [d for _, d in R.selected]
    if m.state.name in ('LOAD', 'HALT') and flat != sel or flat != sel[:len(flat)]:
        return f'post: posted {len(flat)} tasks for {len(sel)} selected, or not as selected'
    if m.state.name in ('LOAD', 'HALT') and [len(b) for b in out.items] and max(len(b) for b in out.items) > case['size']:
        return 'post: bundle larger than the bundle size'
    db = table()
    mine = sorted(i for i, r in db.items() if r['server_id'] == S_ID)
    if m.state.name in ('LOAD', 'HALT') and not set(mine) <= {json.loads(x)['id'] for x in flat}:
        return 'post: a task marked scheduled by this server was never posted'
    if halted == 'self':
        if case['mode'] == 'forever':
            return 'stop: stopped although running forever'
        if case['mode'] != 'restart' and not R.selected:
            return 'stop: stopped before anything was scheduled'
        if not R.ok_moment:
            return f'stop: stopped while tasks were unfinished, to be retried or still being submitted: {[(r["id"][:8], r["exit_status"], r["retried"]) for r in db.values()]}'
    if halted == 'signal':
        pass


class Fake:
    def __init__(self, log, name, join=None):
        self.log, self.name, self.j = log, name, join
    def __getattr__(self, a):
        def call(*x, **k):
            self.log.append((self.name + '.' + a, x, k))
        return call
    def __enter__(self):
        return self
    def __exit__(self, *a):
        pass


def check_wiring(case):
    log = []
    made = {}
    names = ['SchedulerThread', 'SubmitThread', 'ConfirmThread', 'ReceiverThread', 'HeartMonitorThread', 'QueueServer']
    old = {n: getattr(S, n) for n in names}
    class Q(Fake):
        def __init__(self, log, name):
            super().__init__(log, name)
            self.completed, self.confirmed, self.scheduled = Fake(log, 'completed'), Fake(log, 'confirmed'), Fake(log, 'scheduled')
    try:
        for n in names:
            def mk(*a, _n=n, **k):
                made[_n] = (a, k)
                return (Q if _n == 'QueueServer' else Fake)(log, _n)
            setattr(S, n, mk)
        t = S.ServerThread(source=['a'] if case['source'] else None, bundlesize=7, max_retries=4, eager=True, forever_mode=not case['source'], restart_mode=False)
        t.run_with_exceptions()
    finally:
        for n, v in old.items():
            setattr(S, n, v)
    import inspect
    kw = inspect.signature(old['SchedulerThread'].__init__).bind(None, *made['SchedulerThread'][0], **made['SchedulerThread'][1])
    kw.apply_defaults()
    k = kw.arguments
    if (k['bundlesize'], k['attempts'], k['eager'], k['forever_mode'], k['restart_mode']) != (7, 5, True, not case['source'], False):
        return f'wiring: scheduler created with {k}'


def check(case):
    return globals()['check_' + case['kind']](case)
