"""C27 on the real code: cancelled tasks under arbitrary later operations of the server."""
import itertools
import random
from concrete import lib, dblib
from concrete.lib import CLOCK
from concrete.dblib import *
from concrete.c09 import finish
from concrete.c21 import run
import hypershell.task as T

OPS = ['next', 'next_eager', 'restart', 'evict_a', 'evict_b', 'finish', 'count']


def cases(rng, tier):
    for via in ('command', 'limit'):
        for states in (['new', 'scheduled', 'retry_new', 'failed'], ['scheduled', 'new', 'new', 'ok'], ['new', 'new', 'failed', 'scheduled']):
            for seed in (1, 2, 3):
                yield {'via': via, 'kind': 'history', 'states': states, 'cancel': [0, 1, 2, 3], 'ops': ['next', 'restart', 'next'], 'seed': seed}
    for state in ('new', 'scheduled', 'retry_new'):
        for k, ops in enumerate(itertools.product(OPS, repeat=2)):
            yield {'via': ['api', 'command', 'limit'][k % 3], 'kind': 'history', 'states': [state, 'new', 'failed'], 'cancel': [0], 'ops': list(ops), 'seed': 2}
    while True:
        n = rng.randint(1, 8)
        yield {'via': rng.choice(['api', 'command', 'limit']), 'kind': 'history', 'states': [rng.choice(STATES + ['scheduled', 'new']) for _ in range(n)], 'cancel': rng.sample(range(n), rng.randint(1, n)),
               'ops': [rng.choice(OPS) for _ in range(rng.randint(1, 7))], 'seed': rng.randint(0, 10**6)}


def check(case):
    wipe()
    rng = random.Random(case['seed'])
    rows = states_rows(case['states'], case['seed'])
    for r in rows:
        if r['schedule_time'] and r['completion_time'] is None and r['exit_status'] is None and r['client_id'] is None and rng.random() < .5:
            r.update(client_id=rng.choice(CLIENTS), client_host='h')          # confirmed, not started
    for k in case['cancel']:
        if unfinished(rows[k]) and case['states'][k] in ('new', 'scheduled', 'retry_new'):
            rows[k]['tag'] = dict(rows[k].get('tag') or {}, group=case['seed'])
    put(rows)
    ids = [rows[k]['id'] for k in case['cancel'] if unfinished(rows[k]) and case['states'][k] in ('new', 'scheduled', 'retry_new')]
    before = table()
    CLOCK.advance(1)
    via = case.get('via', 'api')
    if via != 'api' and ids:
        for which in ([('-t', f'group:{case["seed"]}')] if rng.random() < .7 else [('-w', f'id == {i}') for i in ids]):
            status, text = run(T.TaskUpdateApp, ['--cancel', '--no-confirm', *which, *(['--limit', str(len(ids))] if via == 'limit' else [])])
            if status != 'ok':
                return f'cancel: the command fails: {text}'
    elif len(ids) == 1 and rng.random() < .5:
        Task.cancel(ids[0])
    else:
        Task.cancel_all(list(ids))
    Session.rollback()
    frozen = table()
    for i, r in frozen.items():
        if i not in ids and r != before[i]:
            return 'cancel: another task was changed'
        if i in ids and any(r[k] != before[i][k] for k in ('args', 'submit_id', 'submit_time', 'submit_host', 'attempt', 'retried', 'previous_id', 'next_id', 'tag')):
            return 'cancel: more than the cancellation was recorded'
    for op in case['ops']:
        CLOCK.advance(1)
        got = []
        if op.startswith('next'):
            got = [t.id for t in Task.next(limit=rng.randint(1, 6), attempts=rng.randint(1, 3), eager=op == 'next_eager')]
        elif op == 'restart':
            Task.revert_interrupted()
        elif op == 'evict_a':
            Task.revert_orphaned(CLIENTS[0])
        elif op == 'evict_b':
            Task.revert_orphaned(CLIENTS[1])
        elif op == 'finish':
            for i, r in table().items():
                if i not in ids and interrupted(r) and rng.random() < .5:
                    finish(i, rng.choice([0, 1]))
        else:
            n, m = Task.count_remaining(), Task.count_interrupted()
            Session.rollback()
            rs = [r for i, r in table().items() if i not in ids]
            if n != sum(map(unfinished, rs)):
                return f'unfinished: {n} counted'
            if m != sum(map(interrupted, rs)):
                return f'interrupted: {m} counted'
        Session.rollback()
        if set(got) & set(ids):
            return f'{op}: a cancelled task was selected for scheduling'
        now = table()
        for i in ids:
            if now.get(i) != frozen[i]:
                return f'{op}: a cancelled task was changed'
        if any(r['previous_id'] in ids for i, r in now.items() if i not in before):
            return f'{op}: a cancelled task was retried'
    if ids:
        Task.revert(ids[0])
        Session.rollback()
        got = [t.id for t in Task.next(limit=1000, attempts=1)]
        Session.rollback()
        if ids[0] not in got:
            return 'revert: a reverted task is not scheduled'
        if set(got) & set(ids[1:]):
            return 'revert: revived another cancelled task'
