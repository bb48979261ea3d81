"""C23 on the real code: random machines and threads with errors and halts at every point."""
import os
import queue
import threading
from enum import Enum
from concrete import lib
lib.setup(fake_clock=False, dbfile=os.path.join(lib.scratch(), f'db.{os.getpid()}.sqlite'))
from hypershell.core.fsm import State, StateMachine
from hypershell.core.thread import Thread
import hypershell.submit, hypershell.server, hypershell.client
from hypershell.cluster import remote, local, ssh
from hypershell.data import initdb
from hypershell.data.model import Task, Client
from unittest.mock import patch
initdb()

N = 4
MACHINES = [('submit', 'LoaderThread'), ('submit', 'DatabaseCommitterThread'), ('submit', 'QueueCommitterThread'), ('server', 'SchedulerThread'), ('server', 'ConfirmThread'),
            ('server', 'ReceiverThread'), ('server', 'HeartMonitorThread'), ('client', 'ClientSchedulerThread'), ('client', 'ClientCollectorThread'), ('client', 'TaskThread'),
            ('client', 'ClientHeartbeatThread'), ('cluster.remote', 'AutoScalerThread')]


class MS(State, Enum):
    S0 = 0
    S1 = 1
    S2 = 2
    S3 = 3
    HALT = 4


STATES = [MS.S0, MS.S1, MS.S2, MS.S3, MS.HALT]
ERRORS = [RuntimeError, KeyError, OSError, ValueError, ZeroDivisionError, AssertionError, StopIteration, NotImplementedError]


def cases(rng, tier):
    for k in range(len(MACHINES)):
        for err in (None, 0, 6):
            yield {'kind': 'component', 'which': k, 'error': err}
    for err in range(len(ERRORS)):
        yield {'kind': 'machine', 'path': [1, 2], 'error': [1, err], 'halt': None, 'start': 0, 'other': False}
    yield {'kind': 'submission', 'n': 8, 'size': 2, 'fails': 0, 'live': False}
    yield {'kind': 'submission', 'n': 8, 'size': 2, 'fails': 1, 'live': True}
    parts = [('completed', False, False), ('heartbeat', False, False), ('confirmed', False, False), ('scheduler', False, False), ('submitter', False, False),
             ('completed', True, False), ('heartbeat', True, True), ('confirmed', True, False), ('scheduled', True, False), ('heartbeat', False, True), ('completed', False, True)]
    for part, in_memory, no_confirm in parts[:6] if tier == 'quick' else parts:
        yield {'kind': 'server', 'part': part, 'in_memory': in_memory, 'no_confirm': no_confirm, 'n': 6}
    yield {'kind': 'server', 'part': parts[-1][0], 'in_memory': False, 'no_confirm': True, 'n': 0}
    yield {'kind': 'client', 'part': 'completed', 'n': 20, 'tasks': 2, 'fails': 0}
    yield {'kind': 'client', 'part': 'executor', 'n': 20, 'tasks': 2, 'fails': 0}
    yield {'kind': 'client', 'part': 'heartbeat', 'n': 4, 'tasks': 1, 'fails': 0}
    for which in ('launcher', 'ssh', 'autoscaling'):
        yield {'kind': 'cluster', 'which': which}
    count = 0
    while True:
        count += 1
        if count % 40 == 0:
            yield {'kind': 'submission', 'n': rng.choice([0, 1, 5, 20, 60]), 'size': rng.choice([1, 3, 7, 50]), 'fails': rng.choice([None, 0, 1, 2, 5]), 'live': rng.random() < .5}
        if count % 200 == 0:
            yield {'kind': 'client', 'part': rng.choice(['completed', 'executor', 'heartbeat', 'confirmed', 'scheduled', None]), 'n': rng.choice([1, 2, 5, 40]), 'tasks': rng.choice([1, 2, 3]),
                   'fails': rng.choice([0, 0, 1, 3])}
        if count % 400 == 0:
            part, in_memory, no_confirm = rng.choice(parts)
            yield {'kind': 'server', 'part': part, 'in_memory': in_memory, 'no_confirm': no_confirm, 'n': rng.choice([0, 1, 4, 30] if part not in ('scheduled', 'submitter') else [1, 4, 30])}
        n = rng.randint(0, 9)
        yield {'kind': 'machine', 'start': rng.randint(0, 4), 'path': [rng.randint(0, 3) for _ in range(n)] + [4], 'error': rng.choice([None, [rng.randint(0, n), rng.randint(0, len(ERRORS) - 1)]]),
               'halt': rng.choice([None, None, rng.randint(-1, n)]), 'other': rng.random() < .3}


def machine(path, start, error, halt, trace):
    box = {}
    def act(state):
        def f():
            i = len(trace)
            trace.append(state)
            if halt == i:
                box['m'].halt()
            if error and error[0] == i:
                box['err'] = ERRORS[error[1]](f'step {i}')
                raise box['err']
            return STATES[path[i]]
        return f
    class M(StateMachine):
        state = STATES[start]
        states = MS
        actions = {s: act(s) for s in STATES[:-1]}
    box['m'] = M()
    return box


class Worker(Thread):
    def __init__(self, m):
        super().__init__('worker')
        self.m = m
    def run_with_exceptions(self):
        self.m.run()


def check(case):
    return {'component': component, 'machine': run, 'submission': submission, 'server': server, 'client': client, 'cluster': cluster}[case['kind']](case)


class Boom(RuntimeError):
    pass


def outcome(f, limit=25):
    """(ended, error) of `f` run in a thread of its own."""
    box = []
    def go():
        try:
            f()
            box.append(None)
        except Exception as e:
            box.append(e)
    t = threading.Thread(target=go, daemon=True)
    t.start()
    t.join(limit)
    return bool(box), box[0] if box else None


class Queue(queue.Queue):
    """A queue of the server one side of which may fail from the k-th call on."""
    err, get_fails, put_fails = None, None, None
    def get(self, *a, **k):
        if self.get_fails is not None:
            self.get_fails -= 1
            if self.get_fails < 0:
                self.get_fails = 0
                raise self.err
        return super().get(*a, **k)
    def put(self, item, *a, **k):
        if self.put_fails is not None:
            self.put_fails -= 1
            if self.put_fails < 0:
                self.put_fails = 0
                raise self.err
        return super().put(item, *a, **k)


def queues(err):
    box = {n: Queue() for n in ('scheduled', 'completed', 'heartbeat', 'confirmed')}
    for q in box.values():
        q.err = err
    class Fake:
        def __init__(self, config=None):
            self.__dict__.update(box)
        def __enter__(self): return self
        def __exit__(self, *a): pass
    return box, Fake


def submission(case):
    """A submission whose delivery fails ends with that error, whatever is still to be read."""
    err = Boom('delivery')
    calls = [0]
    def add(tasks, *a, **k):
        calls[0] += 1
        if case['fails'] is not None and calls[0] > case['fails']:
            raise err
    box, Fake = queues(err)
    box['scheduled'].put_fails = case['fails']
    kw = {'queue_config': object()} if case['live'] else {}
    with patch.object(Task, 'add_all', add), patch('hypershell.submit.QueueClient', Fake):
        ended, got = outcome(lambda: hypershell.submit.submit_from([f'echo {i}' for i in range(case['n'])], bundlesize=case['size'], **kw))
    if not ended:
        return 'waiting: the submission waits for ever although delivering its tasks failed'
    put = -(-case['n'] // case['size'])      # bundles are never larger than the size, so at least so many deliveries
    if case['fails'] is not None and put > case['fails'] and got is not err:
        return f'error: the failed delivery ended the submission with {got!r}'
    if case['fails'] is None and got is not None:
        return f'error: {got!r} without a failure'


def server(case):
    """A server a part of which fails ends with its error instead of waiting for the others."""
    err = Boom('part of the server')
    box, Fake = queues(err)
    part = case['part']
    def fail(*a, **k):
        raise err
    ps = [patch('hypershell.server.QueueServer', Fake), patch('hypershell.submit.QueueClient', Fake)]
    if part in ('completed', 'heartbeat', 'confirmed'):
        box[part].get_fails = 0
    elif part == 'scheduled':
        box[part].put_fails = 0
    elif part == 'scheduler':
        ps.append(patch.object(Task, 'next', fail))
    else:
        ps.append(patch.object(Task, 'add_all', fail))
    def go():
        hypershell.server.serve_from([f'echo {i}' for i in range(case['n'])], auth='x' * 8, in_memory=case['in_memory'], no_confirm=case['no_confirm'], bundlesize=2)
    class Still:
        def __enter__(self):
            for p in ps: p.start()
        def __exit__(self, *a):
            for p in ps: p.stop()
    with Still():
        ended, got = outcome(go)
    if not ended:
        return f'waiting: the server waits for ever although its part {part} failed'
    if got is not err:
        return f'error: the failure of {part} ended the server with {got!r}'


def run(case):
    trace = []
    box = machine(case['path'], case['start'], case['error'], case['halt'], trace)
    if case['other']:
        o = machine([4], 0, None, None, [])['m']
        o.halt()
    if case['halt'] == -1:
        box['m'].halt()
    # what should happen
    want, s, failed = [], case['start'], False
    if case['halt'] != -1:
        while s != 4 and len(want) < len(case['path']):
            i = len(want)
            want.append(STATES[s])
            if case['error'] and case['error'][0] == i:
                failed = True
                break
            s = case['path'][i]
            if case['halt'] == i:
                break
    t = Worker.new(box['m'])
    got = None
    for _ in range(2):
        try:
            t.join(timeout=20)
        except Exception as e:
            got = e
        if t.is_alive():
            return 'run: the machine does not halt'
        if failed and got is not box['err']:
            return f'error: {box.get("err")!r} did not reach whoever waited ({got!r})'
        if not failed and got is not None:
            return f'error: {got!r} without an error'
    if trace != want:
        return f'actions: {[s.name for s in trace]} instead of {[s.name for s in want]}'
    if not failed and box['m'].state is not MS.HALT:
        return 'run: ended outside the halt state'


def client(case):
    """A client a part of which fails ends with its error instead of waiting for the others."""
    err = Boom('part of the client')
    box, Fake = queues(err)
    part = case['part']
    for i in range(case['n']):
        box['scheduled'].put([Task.new(args='true').pack()])
    box['scheduled'].put(None)
    runs = [0]
    class Proc:
        pid = 1
        def __init__(self, *a, **k): pass
        def wait(self, timeout=None):
            runs[0] += 1
            if part == 'executor' and runs[0] > case['fails']:
                raise err
            return 0
        def poll(self): return 0
    if part == 'scheduled':
        box[part].get_fails = case['fails']
    elif part in box:
        box[part].put_fails = case['fails']
    due = {'executor': case['n'], 'completed': case['n'], 'confirmed': case['n'], 'scheduled': case['n'] + 1, 'heartbeat': 1, None: 0}[part] > case['fails']
    with patch('hypershell.client.QueueClient', Fake), patch('hypershell.client.Popen', Proc):
        ended, got = outcome(lambda: hypershell.client.run_client(num_tasks=case['tasks'], auth='x' * 8))
    if not ended:
        return f'waiting: the client waits for ever although its part {part} failed'
    if part is None and got is not None or part is not None and due and got is not err:
        return f'error: the failure of {part} ended the client with {got!r}'


def cluster(case):
    """Clusters whose clients cannot be launched, or whose server failed, end with that error."""
    err = Boom('server')
    box, Fake = queues(err)
    missing = os.path.join(lib.scratch(), 'no', 'such', 'program')
    kw = {'in_memory': True, 'source': ['echo 1'], 'num_tasks': 1}
    ps = [patch('hypershell.server.QueueServer', Fake), patch('hypershell.submit.QueueClient', Fake)]
    if case['which'] == 'launcher':
        f = lambda: remote.run_cluster(launcher=missing, **kw)
    elif case['which'] == 'ssh':
        real = ssh.Popen
        ps.append(patch.object(ssh, 'Popen', lambda argv, **k: real([missing], **k)))
        f = lambda: ssh.run_ssh(nodelist=['a', 'b'], **kw)
    else:
        box['completed'].get_fails = 0
        f = lambda: remote.run_cluster(autoscaling=True, launcher='true', num_tasks=1, source=None, period=1, init_size=1, min_size=0, max_size=1)
    try:
        for p in ps: p.start()
        ended, got = outcome(f)
    finally:
        for p in ps: p.stop()
    if not ended:
        return f'waiting: cluster ({case["which"]}) goes on for ever'
    if case['which'] == 'autoscaling' and got is not err or case['which'] != 'autoscaling' and not isinstance(got, FileNotFoundError):
        return f'error: cluster ({case["which"]}) ended with {got!r}'


def component(case):
    import importlib
    mod, name = MACHINES[case['which']]
    k = getattr(importlib.import_module('hypershell.' + mod), name)
    t = k.__new__(k)
    Thread.__init__(t, name='x')
    t.__dict__['id'] = 0
    err = None if case['error'] is None else ERRORS[case['error']]('x')
    end = queue.Queue()
    end.put(None)
    end.put(None)
    class M:
        runs = halts = 0
        state, queue, local = None, end, end
        def run(self):
            M.runs += 1
            if err:
                raise err
        def halt(self):
            M.halts += 1
    t.machine = M()
    t.start()
    got = None
    try:
        t.join(timeout=20)
    except Exception as e:
        got = e
    if got is not err or M.runs != 1:
        return f'{name}: {err!r} expected, {got!r} after {M.runs} runs'
    got = None
    try:
        t.stop(wait=True, timeout=5)
    except Exception as e:
        got = e
    if M.halts != 1 or got is not err:
        return f'{name}: stop does not halt its machine or loses its error'
