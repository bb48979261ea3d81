"""A real sqlite database for the concrete layer: raw access independent of the code under test."""
import json
import os
import random
import sqlite3
import datetime as dt
from concrete import lib
from concrete.lib import CLOCK, setup

DBFILE = os.path.join(lib.scratch(), f'db.{os.getpid()}.sqlite')
hs = setup(dbfile=DBFILE)
import sqlalchemy as sa
from sqlalchemy import event
from hypershell.data.core import engine
from hypershell.data.model import Task, Client, Session
from hypershell.data import initdb


@event.listens_for(engine, 'connect')
def _pragma(con, rec):
    con.execute('PRAGMA synchronous=OFF')
    con.execute('PRAGMA journal_mode=MEMORY')


initdb()
RAW = sqlite3.connect(DBFILE, timeout=5, isolation_level=None, check_same_thread=False)
RAW.execute('PRAGMA synchronous=OFF')
RAW.row_factory = sqlite3.Row
COLS = ['id', 'args', 'submit_id', 'submit_time', 'submit_host', 'server_id', 'server_host', 'schedule_time', 'client_id', 'client_host',
        'command', 'start_time', 'completion_time', 'exit_status', 'outpath', 'errpath', 'attempt', 'retried', 'waited', 'duration', 'previous_id', 'next_id', 'tag']
T0 = dt.datetime(2024, 3, 1, 12, 0, 0)


def ts(sec):
    """Time column value `sec` seconds after T0 (text form used by SQLAlchemy on sqlite)."""
    return None if sec is None else (T0 + dt.timedelta(seconds=sec)).strftime('%Y-%m-%d %H:%M:%S.%f')


def tid(i):
    return f'{i:08x}-0000-4000-8000-{i:012x}'


def wipe():
    Session.rollback()
    Session.remove()
    RAW.execute('delete from task')
    RAW.execute('delete from client')


def put(rows, table='task'):
    for r in rows:
        r = dict(r)
        if 'tag' in r or table == 'task':
            r['tag'] = json.dumps(r.get('tag') or {})
        RAW.execute(f'insert into {table} ({",".join(r)}) values ({",".join("?" * len(r))})', list(r.values()))


def sql(q, *a):
    return RAW.execute(q, a)


def table(name='task'):
    out = {}
    for r in RAW.execute(f'select * from {name} order by rowid'):
        d = dict(r)
        if 'tag' in d:
            d['tag'] = json.loads(d['tag'])
        out[d['id']] = d
    return out


CLIENTS = ['c0000000-0000-4000-8000-00000000000a', 'c0000000-0000-4000-8000-00000000000b']
STATES = ['new', 'scheduled', 'running', 'ok', 'failed', 'failed_retried', 'cancelled_new', 'cancelled_sched', 'retry_new', 'ok']


def make(i, state, rng, submit=None, client=None, attempt=None, status=None):
    s = rng.randint(0, 50) if submit is None else submit
    d = {c: None for c in COLS}
    d.update(id=tid(i), args=f'echo {i}', submit_id=tid(9999 - (i * 5 + s) % 3), submit_time=ts(s), submit_host=f'sub{(i * 5 + s) % 3}', attempt=attempt or rng.choice([1, 1, 2, 3]), retried=0,
             tag=rng.choice([{}, {'a': 1}, {'k': 'v', 'n': None}]))
    cl = client or rng.choice(CLIENTS)
    if state not in ('new', 'cancelled_new'):
        d.update(server_id=tid(7777), server_host='srv', schedule_time=ts(s + rng.randint(1, 50)))
    if state in ('running', 'ok', 'failed', 'failed_retried'):
        d.update(client_id=cl, client_host='h-' + cl[-1])
    if state == 'retry_new':
        d.update(server_id=None, server_host=None, schedule_time=None, previous_id=tid(50000 + i))
    if state in ('ok', 'failed', 'failed_retried'):
        d.update(command=f'echo {i}', start_time=ts(s + 60), completion_time=ts(s + rng.randint(61, 99)), exit_status=0 if state == 'ok' else (status or rng.choice([1, 2, 127, -9, -15])),
                 outpath=f'/o/{i}', errpath=f'/e/{i}', waited=5, duration=7)
    if state == 'failed_retried':
        d.update(retried=1, next_id=tid(60000 + i))
    if state.startswith('cancelled'):
        d.update(schedule_time=ts(s + 10), exit_status=-1)
        if state == 'cancelled_sched':
            d.update(client_id=rng.choice([None, cl]))
    return d


def states_rows(states, seed, base=1):
    rng = random.Random(seed)
    return [make(base + k, s, rng) for k, s in enumerate(states)]


def unfinished(r):
    return r['completion_time'] is None and r['exit_status'] is None


def interrupted(r):
    return r['schedule_time'] is not None and unfinished(r)


def retryable(r, attempts):
    return r['completion_time'] is not None and r['exit_status'] not in (None, 0) and r['attempt'] < attempts and not r['retried']
