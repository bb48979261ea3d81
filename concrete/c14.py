"""C14 on the real code: recovery on a real database, also across several recovery batches."""
import itertools
import random
from concrete import lib, dblib
from concrete.lib import CLOCK
from concrete.dblib import *
from hypershell.data.model import Task

KEPT = ['id', 'args', 'submit_id', 'submit_time', 'submit_host', 'attempt', 'retried', 'previous_id', 'next_id', 'tag']


def cases(rng, tier):
    for op in ('interrupted', 'orphaned'):
        for states in itertools.product(['new', 'scheduled', 'running', 'ok', 'failed', 'cancelled_sched', 'cancelled_new', 'failed_retried'], repeat=2):
            yield {'kind': op, 'states': list(states), 'seed': 4}
        for n in (99, 100, 101, 199, 200, 201, 230):
            yield {'kind': op, 'states': ['running'] * n + ['cancelled_sched', 'ok', 'new'], 'seed': 5}
        yield {'kind': op, 'states': [], 'seed': 1}
    for n in (0, 1, 2, 3, 5):
        yield {'kind': 'ids', 'states': STATES, 'seed': n, 'n': n}
    while True:
        op = rng.choice(['interrupted', 'orphaned', 'ids'])
        n = rng.choice([3, 8, 12, 12, 20, 120])
        yield {'kind': op, 'states': [rng.choice(STATES + ['running', 'scheduled']) for _ in range(n)], 'seed': rng.randint(0, 10**6), 'n': rng.randint(0, n)}


def recovered(r):
    return {k: r[k] if k in KEPT else None for k in COLS}


def check(case):
    wipe()
    rng = random.Random(case['seed'])
    rows = states_rows(case['states'], case['seed'])
    for r in rows:
        if interrupted(r) and r['client_id'] and rng.random() < .4:
            r.update(command='cmd', start_time=ts(70), outpath='/o', errpath='/e', waited=3)
    rng.shuffle(rows)
    put(rows)
    before = table()
    cl = CLIENTS[0]
    if case['kind'] == 'interrupted':
        n = Task.count_interrupted()
        want = [i for i, r in before.items() if interrupted(r)]
        if n != len(want):
            return f'count: {n} interrupted tasks counted of {len(want)}'
        Session.rollback()
        Task.revert_interrupted()
    elif case['kind'] == 'orphaned':
        want = [i for i, r in before.items() if interrupted(r) and r['client_id'] == cl]
        Task.revert_orphaned(cl)
    else:
        want = rng.sample(sorted(before), min(case['n'], len(before)))
        Task.revert_all(list(want))
    Session.rollback()
    after = table()
    for i, b in before.items():
        exp = recovered(b) if i in want else b
        if after.get(i) != exp:
            d = {k: (after[i][k], exp[k]) for k in COLS if after[i][k] != exp[k]} if i in after else 'gone'
            return f'{"recovered" if i in want else "other"}: task in state {"selected" if i in want else "untouched"} differs (got, want): {d}'
    if set(after) != set(before):
        return 'other: tasks added'
    if case['kind'] != 'ids' and len(before) <= 30:
        got = {t.id for t in Task.select_new(limit=10**6)}
        Session.rollback()
        if not set(want) <= got:
            return 'recovered: not schedulable'
