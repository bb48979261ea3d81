"""C15 on the real code: real ClientThread / ServerThread with real machines and threads, around
in-process queues whose waiting times are scaled down; processes are stand-ins."""
import io
import queue as _queue
import random
import subprocess
import threading
import time
from datetime import datetime
from unittest import mock
from concrete import lib
REAL_SLEEP = time.sleep
lib.setup(fake_clock=False)
from hypershell import client as C, server as S, submit as U
from hypershell.core import heartbeat as H
from hypershell.data.model import Task

SCALE = 0.01
LIMIT = 40.0


class Q:
    """In-process queue with scaled timeouts, a log, and a closed state."""
    def __init__(self, world, name, maxsize=0):
        self.w, self.name = world, name
        self.q = _queue.Queue(maxsize)
    def get(self, block=True, timeout=None):
        x = self.q.get(block, None if timeout is None else max(timeout * SCALE, 0.001))
        self.w.note('get', self.name, x)
        return x
    def put(self, x, block=True, timeout=None):
        x = list(x) if isinstance(x, list) else x           # the proxy of a managed queue pickles at put
        if self.w.closed.is_set():
            self.w.bad(f'{self.name} is used after the connection was closed')
            raise ConnectionError('closed')
        with self.w.lock:
            self.w.log.append(('put', self.name, x))
            k = len(self.w.log) - 1
        try:
            self.q.put(x, block, None if timeout is None else max(timeout * SCALE, 0.001))
        except _queue.Full:
            self.w.log[k] = ('full', self.name, None)
            raise
    def task_done(self):
        self.q.task_done()
    def __getattr__(self, a):
        return getattr(self.q, a)


class World:
    def __init__(self, size):
        self.log, self.problems = [], []
        self.lock = threading.Lock()
        self.closed = threading.Event()
        self.scheduled, self.completed = Q(self, 'scheduled', size), Q(self, 'completed', size)
        self.heartbeat, self.confirmed = Q(self, 'heartbeat'), Q(self, 'confirmed')
        self.entered = 0
    def note(self, *e):
        with self.lock:
            self.log.append(e)
    def bad(self, text):
        self.problems.append(text)
    def __call__(self, *a, **k):
        return self
    def __enter__(self):
        self.entered += 1
        return self
    def __exit__(self, *a):
        self.note('exit', '', None)
        self.closed.set()


class Proc:
    pid = 1
    def __init__(self, rng):
        self.d = rng.choice([0, 0, .002, .01])
        self.status = rng.choice([0, 0, 1])
    def wait(self, timeout=None):
        REAL_SLEEP(self.d)
        return self.status
    def __getattr__(self, a):
        return lambda *x, **k: None


def cases(rng, tier):
    for n in (1, 2, 3):
        for size in (1, 3):
            yield {'kind': 'client', 'n': n, 'size': size, 'bundles': [2, 1, 3], 'slow': 0, 'noconf': False, 'seed': n}
    for nc in (False, True):
        yield {'kind': 'server', 'lines': 5, 'size': 2, 'noconf': nc, 'late': 3, 'seed': 3}
    for mem in (0, 1):
        for nc in (0, 1):
            for src in (0, 1):
                yield {'kind': 'trace', 'mem': mem, 'nc': nc, 'src': src}
    while True:
        r = rng.random()
        if r < .5:
            yield {'kind': 'client', 'n': rng.randint(1, 6), 'size': rng.randint(1, 4), 'bundles': [rng.randint(1, 4) for _ in range(rng.randint(0, 5))],
                   'slow': rng.choice([0, 0, .01]), 'noconf': rng.random() < .4, 'seed': rng.randint(0, 10**6)}
        elif r < .8:
            yield {'kind': 'server', 'lines': rng.randint(1, 9), 'size': rng.randint(1, 4), 'noconf': rng.random() < .4, 'late': rng.randint(0, 5), 'seed': rng.randint(0, 10**6)}
        else:
            yield {'kind': 'beat', 'change': rng.randint(0, 6), 'seed': rng.randint(0, 10**6)}


def fast(n):
    REAL_SLEEP(max(0, n) * SCALE)


def finish(thread, w, limit=LIMIT):
    thread.start()
    end = time.monotonic() + limit
    while thread.is_alive() and time.monotonic() < end:
        REAL_SLEEP(.002)
    return not thread.is_alive()


def check_client(case):
    rng = random.Random(case['seed'])
    w = World(case['size'])
    want = []
    bundles = []
    for k in case['bundles']:
        b = [Task.new(args=f'echo {len(want) + i}') for i in range(k)]
        want += [t.id for t in b]
        bundles.append([t.pack() for t in b])
    class ScaledQueue(_queue.Queue):
        def get(self, block=True, timeout=None):
            return super().get(block, None if timeout is None else max(timeout * SCALE, .001))
        def put(self, x, block=True, timeout=None):
            return super().put(x, block, None if timeout is None else max(timeout * SCALE, .001))
    executors = []
    with mock.patch.object(C, 'QueueClient', w), mock.patch.object(C, 'Queue', ScaledQueue), mock.patch.object(C, 'Popen', lambda *a, **k: Proc(rng)), \
            mock.patch.object(C, 'Template', lambda t='{}': lib.Obj(expand=lambda a: a)), mock.patch.object(time, 'sleep', fast):
        t = C.ClientThread(num_tasks=case['n'], bundlesize=case['size'], bundlewait=1, address=('x', 1), auth='k', heartrate=1, no_confirm=case['noconf'])
        executors = list(t.executors)
        def serve():
            for b in bundles:
                w.scheduled.q.put(b)
            REAL_SLEEP(rng.choice([0, .02]))
            w.scheduled.q.put(None)
        def drain():
            while not done.is_set():
                try:
                    w.completed.q.get(timeout=.02)
                    REAL_SLEEP(case['slow'])
                except _queue.Empty:
                    pass
        done = threading.Event()
        threading.Thread(target=serve, daemon=True).start()
        threading.Thread(target=drain, daemon=True).start()
        ok = finish(t, w)
        done.set()
        if not ok:
            return 'client does not finish'
        try:
            t.join()
        except BaseException as e:
            return f'client failed: {type(e).__name__}: {e}'
        REAL_SLEEP(.01)
    if len(executors) != case['n']:
        return 'number of executors'
    alive = [e for e in executors if e.is_alive()]
    if alive:
        return f'{len(alive)} executors still run after the client is done'
    if t.collector.is_alive() or t.scheduler.is_alive() or t.heartbeat.is_alive():
        return 'a component still runs after the client is done'
    if w.problems:
        return 'used after disconnecting: ' + w.problems[0]
    got, fin = [], None
    for k, (op, q, x) in enumerate(w.log):
        if op == 'put' and q == 'completed':
            if fin is not None:
                return 'result returned after the client announced that it finished'
            got += [Task.unpack(d).id for d in x]
        if op == 'put' and q == 'heartbeat' and H.Heartbeat.unpack(x).state is H.ClientState.FINISHED:
            if fin is not None:
                return 'finished announced twice'
            fin = k
    if fin is None:
        return 'the client never announced that it finished'
    if sorted(got) != sorted(want):
        return f'results lost or repeated at shutdown: {len(got)} of {len(want)}'
    if w.log[-1][0] != 'exit':
        return 'not disconnected last'
    return None


def check_server(case):
    rng = random.Random(case['seed'])
    w = World(case['size'])
    out = io.StringIO()
    lines = [f'line {i}' for i in range(case['lines'])]
    seen = threading.Event()
    def source():
        seen.wait(30)
        yield from lines
    expected = []
    problems = []
    def client():
        def beat(state):
            w.heartbeat.put(H.Heartbeat('u1', 'h1', datetime.now().astimezone(), state).pack())
        beat(H.ClientState.RUNNING)
        while not w.heartbeat.q.empty():
            REAL_SLEEP(.001)
        REAL_SLEEP(.3)
        seen.set()
        pending = []
        while True:
            try:
                b = w.scheduled.get(timeout=1)
            except _queue.Empty:
                continue
            if b is None:
                break
            pending.append(b)
        late = []
        for b in pending:
            ts = [Task.unpack(d) for d in b]
            for t in ts:
                t.exit_status = 1
                expected.append(t.args)
            late.append(ts)
        for i in range(case['late']):
            t = Task.new(args=f'late {i}')
            t.exit_status = 2
            expected.append(t.args)
            late.append([t])
        for ts in late:
            REAL_SLEEP(rng.choice([0, .003]))
            try:
                w.confirmed.put(C.ClientInfo('u1', 'h1', [t.id for t in ts]).pack())
                w.completed.put([t.pack() for t in ts])
            except ConnectionError:
                return
        try:
            beat(H.ClientState.FINISHED)
        except ConnectionError:
            pass
    confirmed = []
    with mock.patch.object(S, 'QueueServer', w), mock.patch.object(U, 'QueueClient', lambda config=None: _Sub(w)), mock.patch.object(time, 'sleep', fast), \
            mock.patch.object(U, 'Queue', _queue.Queue):
        t = S.ServerThread(source=source(), bundlesize=case['size'], bundlewait=1, in_memory=True, no_confirm=case['noconf'], max_retries=0,
                           redirect_failures=out, evict_after=100000)
        if t.confirm is not None:
            cls = S.ClientInfo
            class Seen(cls):
                @classmethod
                def unpack(k, data):
                    r = cls.unpack(data)
                    confirmed.extend(r.task_ids)
                    return r
        cl = threading.Thread(target=client, daemon=True)
        cl.start()
        ok = finish(t, w)
        if not ok:
            return 'server does not finish'
        try:
            t.join()
        except BaseException as e:
            return f'server failed: {type(e).__name__}: {e}'
        cl.join(15)
    if w.problems:
        return 'queues closed while a client still used them: ' + w.problems[0]
    if cl.is_alive():
        return 'the client was never told to disconnect'
    for n in ('receiver', 'confirm', 'heartmonitor', 'submitter'):
        th = getattr(t, n)
        if th is not None and th.is_alive():
            return f'the {n} still runs after the server is done'
    got = out.getvalue().splitlines()
    if sorted(got) != sorted(expected) or (case['lines'] + case['late']) != len(expected):
        return f'results in flight lost at shutdown: {len(got)} of {len(expected)} recorded'
    if not case['noconf'] and not w.confirmed.q.empty():
        return 'confirmations in flight lost at shutdown'
    return None


class _Sub:
    def __init__(self, w):
        self.scheduled = w.scheduled
    def __enter__(self):
        return self
    def __exit__(self, *a):
        pass


class Ev:
    """Component that records what happens to it."""
    def __init__(self, name, log):
        self.__dict__.update(_n=name, _l=log)
    def __getattr__(self, a):
        return Ev(f'{self._n}.{a}', self._l)
    def __call__(self, *a, **k):
        self._l.append(self._n)
    def __enter__(self):
        self._l.append(f'{self._n}.enter')
    def __exit__(self, *a):
        self._l.append(f'{self._n}.exit')


def check_trace(case):
    log = []
    mk = lambda n: (lambda *a, **k: Ev(n, log))
    names = {'SchedulerThread': 'scheduler', 'SubmitThread': 'submit', 'LiveSubmitThread': 'submit', 'ConfirmThread': 'confirm', 'ReceiverThread': 'receiver',
             'HeartMonitorThread': 'monitor', 'QueueServer': 'queue'}
    from contextlib import ExitStack
    with ExitStack() as st:
        for k, v in names.items():
            st.enter_context(mock.patch.object(S, k, mk(v)))
        st.enter_context(mock.patch.object(S, 'DATABASE_ENABLED', True))
        t = S.ServerThread(source=['x'] if case['src'] else None, in_memory=bool(case['mem']), no_confirm=bool(case['nc']), max_retries=0)
        log.clear()
        t.run_with_exceptions()
    chain = (['submit.join'] if case['src'] else []) + ([] if case['mem'] else ['scheduler.join']) + ['monitor.signal_clients', 'monitor.join', 'queue.completed.put', 'receiver.join', 'queue.exit']
    chain2 = ['monitor.join', 'queue.confirmed.put', 'confirm.join', 'queue.exit']
    for ch in [chain] + ([] if case['nc'] else [chain2]):
        pos = [log.index(e) if log.count(e) == 1 else -1 for e in ch]
        if -1 in pos or pos != sorted(pos):
            return f'server shutdown order: {[e for e in log if e in ch]}'
    return None


def check_beat(case):
    """The client may be told to finish between any two reads of its state."""
    sent = []
    reads = [0]
    class M(C.ClientHeartbeat):
        @property
        def client_state(self):
            reads[0] += 1
            return H.ClientState.RUNNING if reads[0] <= case['change'] else H.ClientState.FINISHED
        @client_state.setter
        def client_state(self, v):
            pass
    q = lib.Obj(heartbeat=lib.Obj(put=lambda x, timeout=None, block=True: sent.append(H.Heartbeat.unpack(x).state)))
    with mock.patch.object(time, 'sleep', lambda n: None):
        m = M(queue=q, heartrate=0)
        lib.run_machine(m, 5000)
    if not sent or sent[-1] is not H.ClientState.FINISHED or sent.count(H.ClientState.FINISHED) != 1:
        return 'heartbeat machine ended without announcing that the client finished'
    return None


def check(case):
    return {'client': check_client, 'server': check_server, 'trace': check_trace, 'beat': check_beat}[case['kind']](case)
