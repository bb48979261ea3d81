"""C10 on the real code: histories of selection, failure, success and recovery."""
import itertools
import random
from concrete import lib, dblib
from concrete.lib import CLOCK
from concrete.dblib import *
from concrete.c09 import finish


def cases(rng, tier):
    for attempts in (1, 2, 3, 4):
        for eager in (False, True):
            for n in (1, 2, 3):
                for limit in (1, 2, 5):
                    yield {'kind': 'history', 'states': ['new'] * n, 'seed': n, 'limit': limit, 'attempts': attempts, 'eager': eager, 'pfail': 1.0, 'rounds': 8}
    for states in itertools.product(['failed', 'failed_retried', 'ok', 'running', 'cancelled_sched', 'new'], repeat=2):
        for attempts in (1, 2, 3):
            yield {'kind': 'history', 'states': list(states), 'seed': 5, 'limit': 5, 'attempts': attempts, 'eager': attempts == 2, 'pfail': .7, 'rounds': 5}
    while True:
        yield {'kind': 'history', 'states': [rng.choice(STATES + ['failed']) for _ in range(rng.randint(1, 10))], 'seed': rng.randint(0, 10**6), 'limit': rng.randint(1, 6), 'attempts': rng.randint(1, 4),
               'eager': rng.random() < .5, 'pfail': rng.choice([.3, .7, 1.0]), 'rounds': rng.randint(2, 6)}


def check(case):
    wipe()
    rng = random.Random(case['seed'] + 1)
    rows = states_rows(case['states'], case['seed'])
    if rng.random() < .5:
        for r in rows:
            r['tag'] = rng.choice([{}, {'a': 'b'}, {'x': None, 'y': 2.5, 'z': True}, {'2024-01-01': '2024-01-01'}])
            r['args'] = rng.choice(['echo 1', "sh -c 'x y'", '2024-01-01', 'é "q"'])
    put(rows)
    retry_of = {}
    for k in range(case['rounds']):
        before = table()
        CLOCK.advance(2)
        ids = [t.id for t in Task.next(limit=case['limit'], attempts=case['attempts'], eager=case['eager'])]
        Session.rollback()
        after = table()
        made = {}
        for i, r in after.items():
            if i in before:
                continue
            p = r['previous_id']
            if p not in before:
                return f'retry: new task without a failed predecessor ({p})'
            b, a = before[p], after[p]
            if b['exit_status'] in (None, 0) or b['completion_time'] is None:
                return f'retry: of a task that did not complete with a failure (status {b["exit_status"]})'
            if b['attempt'] >= case['attempts']:
                return f'retry: attempt {b["attempt"]} of {case["attempts"]} was retried'
            if b['retried'] or p in retry_of or p in made:
                return 'retry: second retry of one failure'
            made[p] = i
            if (r['args'], r['tag']) != (b['args'], b['tag']):
                return f'retry: args or tags differ: {r["args"]!r} {r["tag"]} from {b["args"]!r} {b["tag"]}'
            if r['attempt'] != b['attempt'] + 1 or r['attempt'] > case['attempts']:
                return f'retry: attempt {r["attempt"]} after {b["attempt"]}'
            if a['next_id'] != i or not a['retried']:
                return 'retry: the failed task does not refer to its retry'
            if r['retried'] or r['next_id'] or r['exit_status'] is not None or r['completion_time'] or r['command'] or r['start_time'] or r['client_id'] or r['outpath'] or r['duration'] is not None or r['waited'] is not None:
                return 'retry: carries over the earlier run'
            if {k2: v for k2, v in a.items() if k2 not in ('retried', 'next_id')} != {k2: v for k2, v in b.items() if k2 not in ('retried', 'next_id')}:
                return 'retry: the failed task itself was changed'
        for i, b in before.items():
            if i not in made and (after[i]['retried'], after[i]['next_id'], after[i]['previous_id'], after[i]['attempt']) != (b['retried'], b['next_id'], b['previous_id'], b['attempt']):
                return 'retry: bookkeeping of a task that was not retried changed'
        retry_of.update(made)
        for i in ids:
            if rng.random() < .85:
                finish(i, rng.choice([1, 2, -9, 255]) if rng.random() < case['pfail'] else 0)
    rows = table()
    prev = [r['previous_id'] for r in rows.values() if r['previous_id']]
    if len(prev) != len(set(prev)):
        return 'retry: two records claim the same predecessor'
