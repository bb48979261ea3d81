"""C04 on the real code: queue committer and loader under scripted queues and clock, whole LiveSubmitThread."""
import itertools
import json
import queue
from concrete import lib
from concrete.lib import CLOCK, InQ, OutQ, run_machine, setup, Obj
hs = setup()
from hypershell import submit as S
from hypershell.data.model import Task
from concrete import c03_spec as spec


def cases(rng, tier):
    for n in range(0, 6):
        for size in (1, 2, 3):
            for full in itertools.product((0, 1, 3), repeat=3):
                yield {'kind': 'committer', 'lines': [f'echo {i}' for i in range(n)], 'gaps': [0.1] * n, 'empties': [0] * (n + 1), 'size': size, 'wait': 5, 'fulls': list(full)}
    for gaps in itertools.product([0.2, 4.9, 5.1], repeat=3):
        yield {'kind': 'committer', 'lines': ['a', 'b', 'c'], 'gaps': list(gaps), 'empties': [0, 1, 0, 6], 'size': 10, 'wait': 5, 'fulls': [1, 0, 2]}
    for n in (0, 1, 5):
        yield {'kind': 'thread', 'lines': [f' echo {i}\n' for i in range(n)], 'size': 2, 'wait': 5, 'fulls': [0, 2, 0, 1, 1], 'template': 'run {}', 'tags': {'a': 1}}
        yield {'kind': 'from', 'lines': [f'echo {i}' for i in range(n)], 'size': 3, 'wait': 5, 'fulls': [1, 1, 1], 'template': '{}', 'tags': None}
    yield {'kind': 'one', 'lines': ['x'], 'size': 1, 'wait': 5, 'fulls': [50], 'template': '{}', 'tags': None}
    for a, b in itertools.product([0.01, 20, 3600, 10**6], repeat=2):
        yield {'kind': 'slow', 'loader': a, 'committer': b}
    while True:
        n = rng.randint(0, 12)
        lines = [rng.choice(spec.LINES + [f'l{i}']) for i in range(n)]
        w = rng.choice([0, 1, 5, 30])
        f = [rng.choice([0, 0, 1, 2, 7]) for _ in range(n + 1)]
        if rng.random() < 0.8:
            yield {'kind': 'committer', 'lines': lines, 'gaps': [rng.choice([0, 0.1, w / 2, w, w + 0.1]) for _ in range(n)],
                   'empties': [rng.choice([0, 0, 1, 4]) for _ in range(n + 1)], 'size': rng.randint(1, 6), 'wait': w, 'fulls': f}
        else:
            yield {'kind': rng.choice(['thread', 'from']), 'lines': lines, 'size': rng.randint(1, 4), 'wait': rng.choice([0, 5]), 'fulls': f,
                   'template': rng.choice(['{}', 'echo {}']), 'tags': rng.choice([None, {'a': 'b', 'n': 1.5}])}


class Client:
    def __init__(self, q):
        self.scheduled = q
        self.open = 0
    def __enter__(self):
        self.open += 1
        return self
    def __exit__(self, *a):
        self.open -= 1


def flat(q):
    if any(len(b) == 0 for b in q.items):
        return None
    return [x for b in q.items for x in b]


def snap(b):
    return list(b)


def check(case):
    return globals()['check_' + case['kind']](case)


def check_committer(case):
    tasks = [Task.new(args=l or 'blank') for l in case['lines']]
    want = [t.pack() for t in tasks]
    script = []
    for t, g, e in zip(tasks, case['gaps'], case['empties']):
        script += [('empty', 1.0)] * e + [('item', t, g)]
    script += [('empty', 1.0)] * case['empties'][-1] + [('end',)]
    out = OutQ(case['fulls'], snap=snap)
    inq = InQ(script)
    st = {'n': 0, 'seen': 0, 'last': None, 'due': False, 'bad': None}
    real = inq.get
    def get(*a, **k):
        # what has been delivered when the next task is asked for
        n = sum(len(b) for b in out.items)
        if st['last'] is None or n > st['seen']:
            st['last'] = CLOCK.t
        st['seen'] = n
        if st['due'] and n != st['n']:
            st['bad'] = st['bad'] or f'flush: {n} of {st["n"]} tasks delivered although the bundle is full or overdue'
        st['due'] = False
        try:
            x = real(*a, **k)
        except queue.Empty:
            st['due'] = st['n'] > n and CLOCK.t - st['last'] >= case['wait'] + 1e-6     # also while no task arrives
            raise
        if x is not None:
            st['n'] += 1
            st['due'] = st['n'] - n >= case['size'] or CLOCK.t - st['last'] >= case['wait'] + 1e-6
        return x
    inq.get = get
    m = S.QueueCommitter(local=inq, client=Obj(scheduled=out), bundlesize=case['size'], bundlewait=case['wait'])
    run_machine(m)
    if st['bad']:
        return st['bad']
    got = flat(out)
    if got is None:
        return 'committer: empty bundle delivered'
    if got != want:
        return f'committer: {len(got)} tasks delivered for {len(want)} received, or out of order / duplicated / altered'


def wire(case, out, n):
    got = flat(out)
    if got is None:
        return 'live: empty bundle delivered'
    recs = [json.loads(b.decode()) for b in got]
    want = [spec.spec_args(l, case['template']) for l in case['lines']]
    if [r['args'].strip() for r in recs] != want:
        return f'live: delivered {[r["args"] for r in recs]!r} for lines {case["lines"]!r}'
    if any(r['tag'] != (case['tags'] or {}) for r in recs):
        return 'live: tags differ'
    if len({r['id'] for r in recs}) != len(recs):
        return 'live: duplicate task'
    if n != len(want):
        return f'live: reported {n} for {len(want)} lines'


def run_with(case, fn):
    out = OutQ(case['fulls'], snap=snap)
    cl = Client(out)
    class Q:
        def put(self, *a, **k):
            assert cl.open == 1, 'delivery on a closed connection'
            return out.put(*a, **k)
    cl.scheduled = Q()
    cfg = S.QueueConfig(host='h', port=1, auth='a' * 16)
    real, S.QueueClient = S.QueueClient, (lambda config: cl if config is cfg else None)
    try:
        n = fn(cfg)
    finally:
        S.QueueClient = real
    return wire(case, out, n)


def check_thread(case):
    def fn(cfg):
        t = S.LiveSubmitThread.new(list(case['lines']), queue_config=cfg, bundlesize=case['size'], bundlewait=case['wait'], template=case['template'], tags=case['tags'])
        t.join(30)
        return t.task_count if not t.is_alive() else -1
    return run_with(case, fn)


check_one = check_thread


def check_from(case):
    return run_with(case, lambda cfg: S.submit_from(list(case['lines']), queue_config=cfg, bundlesize=case['size'], bundlewait=case['wait'], template=case['template'], tags=case['tags']))


def check_slow(case):
    """The end marker goes to the committer only after all input was read, and the connection stays open
    until the committer has delivered everything, however long either takes."""
    class Conn(Client):
        def __exit__(self, *a):
            if committer.needs:
                bad.append('end: disconnected while tasks are still being delivered')
            Client.__exit__(self, *a)
    cl, bad = Conn(None), []
    real, S.QueueClient = S.QueueClient, (lambda *a, **k: cl)
    try:
        t = S.LiveSubmitThread(source=[], queue_config=S.QueueConfig(host='h', port=1, auth='a' * 16), bundlesize=3, bundlewait=5, template='{}')
    finally:
        S.QueueClient = real
    loader, committer = t.loader, t.committer = lib.Slow(case['loader']), lib.Slow(case['committer'])
    def put(item, *a, **k):
        if item is None and loader.needs:
            bad.append(f'end: the end marker is queued with {loader.needs} s of input still to be read')
    t.local = Obj(put=put)
    t.run_with_exceptions()
    if committer.needs:
        bad.append('end: submission ends while tasks are still being delivered')
    return bad[0] if bad else None
