"""C09 on the real code: Task.next against a real database."""
import itertools
import random
from concrete import lib, dblib
from concrete.lib import CLOCK
from concrete.dblib import *
from hypershell.data import model as M

SCHED = ('server_id', 'server_host', 'schedule_time')


def cases(rng, tier):
    kinds = ['new', 'failed', 'ok', 'running', 'cancelled_new', 'failed_retried']
    for states in itertools.product(kinds, repeat=3):
        for eager in (False, True):
            for limit in (1, 2, 4):
                yield {'kind': 'next', 'states': list(states), 'seed': 3, 'limit': limit, 'attempts': 3, 'eager': eager, 'rounds': 1}
    for n in range(0, 7):
        for m in range(0, 7):
            for limit in (1, 3, 5, 6):
                for eager in (False, True):
                    yield {'kind': 'next', 'states': ['new'] * n + ['failed'] * m, 'seed': n * 10 + m, 'limit': limit, 'attempts': 2 + n % 3, 'eager': eager, 'rounds': 2}
    for attempts in (1, 2, 3, 4):
        yield {'kind': 'next', 'states': STATES * 2, 'seed': attempts, 'limit': 50, 'attempts': attempts, 'eager': attempts % 2 == 0, 'rounds': 1}
    while True:
        yield {'kind': 'next', 'states': [rng.choice(STATES + ['new', 'failed', 'failed']) for _ in range(rng.randint(0, 14))], 'seed': rng.randint(0, 10**6), 'limit': rng.randint(1, 9),
               'attempts': rng.randint(1, 4), 'eager': rng.random() < .5, 'rounds': rng.randint(1, 3)}


def one(case):
    """One call of next; returns (problem, before, after, ids)."""
    before = table()
    t0 = CLOCK.t
    CLOCK.advance(1.5)
    got = Task.next(limit=case['limit'], attempts=case['attempts'], eager=case['eager'])
    objs = {t.id: {k: getattr(t, k) for k in COLS} for t in got}
    ids = [t.id for t in got]
    Session.rollback()
    after = table()
    return before, after, ids, objs


def judge(case, before, after, ids, objs):
    if len(ids) > case['limit']:
        return f'batch: {len(ids)} tasks for a limit of {case["limit"]}'
    if len(set(ids)) != len(ids):
        return 'batch: a task twice'
    new, retries = [], []
    for i in ids:
        if i in before:
            if before[i]['schedule_time'] is not None:
                return f'batch: task {i[:8]} was already scheduled'
            new.append(i)
        else:
            p = after.get(i, {}).get('previous_id')
            if p not in before or not retryable(before[p], case['attempts']):
                return f'batch: {i[:8]} is neither a never-scheduled task nor a fresh retry of a failed one'
            retries.append(i)
    pool = [r for r in before.values() if r['schedule_time'] is None]
    times = [before[i]['submit_time'] for i in new]
    if times != sorted(times):
        return 'order: never-scheduled tasks not in order of submission'
    if times != sorted(r['submit_time'] for r in pool)[:len(new)]:
        return 'order: an older never-scheduled task was passed over'
    if len(new) < len(pool) and len(ids) < case['limit']:
        return 'batch: never-scheduled tasks left behind although the batch is not full'
    elig = [r for r in before.values() if retryable(r, case['attempts'])]
    if len(retries) < len(elig) and len(ids) < case['limit']:
        return 'batch: retries left behind although the batch is not full'
    if not case['eager'] and retries and len(new) < len(pool):
        return 'priority: a retry was selected while never-scheduled tasks were left behind'
    if case['eager'] and new and len(retries) < len(elig):
        return 'priority: a never-scheduled task was selected while retries were left behind'
    for i in ids:
        r = after.get(i)
        if r is None:
            return 'stored: a selected task is not in the database'
        if r['server_id'] != M.INSTANCE or r['server_host'] != M.HOSTNAME or not r['schedule_time']:
            return f'stored: selected task not recorded as scheduled by this server ({[r[k] for k in SCHED]})'
        o = objs[i]
        if o['server_id'] != M.INSTANCE or o['server_host'] != M.HOSTNAME or o['schedule_time'] is None:
            return 'batch: selected task does not carry the scheduling data'
        if (o['args'], o['tag'], o['attempt']) != (r['args'], r['tag'], r['attempt']):
            return 'batch: selected task differs from its record'
        if i in before and {k: v for k, v in r.items() if k not in SCHED} != {k: v for k, v in before[i].items() if k not in SCHED}:
            return 'stored: selecting changed other fields of the task'
    for i, r in after.items():
        if i in ids:
            continue
        if i not in before:
            return 'stored: a task was added that is not in the batch'
        if any(r[k] != before[i][k] for k in SCHED):
            return f'stored: task {i[:8]} outside the batch is marked scheduled'
    if set(before) - set(after):
        return 'stored: tasks vanished'
    return None


def check(case):
    wipe()
    rng = random.Random(case['seed'])
    rows = states_rows(case['states'], case['seed'])
    rng.shuffle(rows)
    put(rows)
    for k in range(case['rounds']):
        before, after, ids, objs = one(case)
        r = judge(case, before, after, ids, objs)
        if r:
            return r
        # some of the scheduled tasks fail meanwhile
        for i in ids:
            if rng.random() < .6:
                finish(i, rng.choice([0, 1, 5]))


def finish(i, status):
    sql('update task set client_id=?, client_host=?, command=args, start_time=?, completion_time=?, exit_status=?, waited=1, duration=1 where id=?',
        CLIENTS[0], 'h', ts(500), ts(501), status, i)
