"""C06 on the real code: ClientCollector with scripted queues and clock."""
import itertools
import json
from concrete.lib import CLOCK, InQ, OutQ, run_machine, setup, Obj, rand_text
hs = setup()
from hypershell import client as C
from hypershell.data.model import Task


def cases(rng, tier):
    for n in range(0, 6):
        for size in (1, 2, 3):
            for full in itertools.product((0, 1, 3), repeat=3):
                yield {'kind': 'run', 'n': n, 'gaps': [0.1] * n, 'empties': [0] * (n + 1), 'size': size, 'wait': 5, 'fulls': list(full)}
    for gaps in itertools.product([0.2, 2.5, 4.9, 5.1], repeat=3):
        for em in ([0, 0, 0, 0], [3, 0, 1, 7], [6, 6, 6, 6]):
            yield {'kind': 'run', 'n': 3, 'gaps': list(gaps), 'empties': em, 'size': 10, 'wait': 5, 'fulls': [1, 0, 2]}
    while True:
        n = rng.randint(0, 12)
        w = rng.choice([0, 1, 5, 30])
        yield {'kind': 'run', 'n': n, 'gaps': [rng.choice([0, 0.1, w / 2, w, w + 0.1]) for _ in range(n)],
               'empties': [rng.choice([0, 0, 1, 4]) for _ in range(n + 1)], 'size': rng.randint(1, 6), 'wait': w,
               'fulls': [rng.choice([0, 0, 1, 2, 7]) for _ in range(n + 1)]}


def check(case):
    tasks = []
    for i in range(case['n']):
        t = Task.new(args=f'echo {i}', tag={'i': i})
        t.exit_status, t.command, t.client_id = i % 3, f'echo {i}', 'c'
        t.outpath = None if i % 2 else '/x'
        tasks.append(t)
    want = [json.loads(t.pack().decode()) for t in tasks]
    script = []
    for t, g, e in zip(tasks, case['gaps'], case['empties']):
        script += [('empty', 1.0)] * e + [('item', t, g)]
    script += [('empty', 1.0)] * case['empties'][-1] + [('end',)]
    q = InQ(script)
    out = OutQ(case['fulls'], snap=list)
    st = {'n': 0, 'sent': 0, 'last': None, 'due': False, 'bad': None}
    real = q.get
    def sent():
        return sum(len(b) for b in out.items)
    def get(*a, **k):
        s = sent()
        if st['last'] is None:
            st['last'] = CLOCK.t
        if st['due'] and s < st['n']:
            st['bad'] = st['bad'] or f'flush: {st["n"] - s} results kept although the bundle is full or overdue'
        if s > st['sent']:
            st['last'], st['sent'] = CLOCK.t, s
        try:
            x = real(*a, **k)
            if x is not None:
                st['n'] += 1
            return x
        finally:
            st['due'] = (st['n'] - s >= case['size']) or (st['n'] > s and CLOCK.t - st['last'] >= case['wait'] + 1e-6)
    q.get = get
    m = C.ClientCollector(queue=Obj(completed=out), local=q, bundlesize=case['size'], bundlewait=case['wait'])
    run_machine(m)
    if any(len(b) == 0 for b in out.items):
        return 'collector: empty bundle'
    got = [json.loads(x.decode()) for b in out.items for x in b]
    if got != want:
        return f'collector: {len(got)} results returned for {len(want)} finished tasks, or altered / out of order'
    return st['bad']
