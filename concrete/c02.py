"""C02 on the real code: heartbeats and confirmations through pack and unpack, the client that builds a
confirmation and the server that turns it into assignments."""
import datetime as dt
import json
from concrete import lib, dblib
from concrete import c05, c12
from concrete.c01 import TEXT, TIMES, value, same
from hypershell.core.heartbeat import Heartbeat, ClientState
from hypershell.core import heartbeat as H
from hypershell.client import ClientInfo
from hypershell import client as C
from hypershell.data.model import Task


def cases(rng, tier):
    for st in ('RUNNING', 'FINISHED'):
        for t in TIMES:
            yield {'kind': 'beat', 'uuid': 'u', 'host': 'h', 'time': t, 'state': st}
        for x in TEXT:
            yield {'kind': 'beat', 'uuid': x, 'host': 'h', 'time': TIMES[1], 'state': st}
            yield {'kind': 'beat', 'uuid': 'u', 'host': x, 'time': TIMES[1], 'state': st}
    for x in TEXT:
        yield {'kind': 'info', 'cid': x, 'host': 'h', 'ids': ['a']}
        yield {'kind': 'info', 'cid': 'c', 'host': x, 'ids': [x, x + 'b']}
    for n in range(0, 30):
        yield {'kind': 'info', 'cid': 'c', 'host': 'h', 'ids': [f'id{(i * 7) % 30}' for i in range(n)]}
    for st in (None, 'RUNNING', 'FINISHED'):
        yield {'kind': 'new', 'state': st}
    base = {'kind': 'client', 'fulls': [], 'cfulls': [], 'no_confirm': False, 'timeout': None, 'standalone': True}
    for sizes in ([1], [3, 1], [2, 2, 2]):
        for f in (0, 2):
            yield dict(base, script=[['b', s] for s in sizes] + [['end']], cfulls=[f] * 3, fulls=[f] * 8)
    for sizes in ([1], [3, 1], [2, 2, 2]):
        yield {'kind': 'server', 'sizes': sizes, 'empties': [0, 2, 1, 0], 'mem': False, 'seed': 2}
    while True:
        r = rng.random()
        if r < .4:
            yield {'kind': 'beat', 'uuid': value('str', rng), 'host': value('str', rng), 'time': value('time', rng), 'state': rng.choice(['RUNNING', 'FINISHED'])}
        elif r < .7:
            yield {'kind': 'info', 'cid': value('str', rng), 'host': value('str', rng), 'ids': [value('str', rng) for _ in range(rng.randint(0, 6))]}
        elif r < .85:
            yield dict(base, script=[['b', rng.randint(1, 5)] for _ in range(rng.randint(1, 4))] + [['end']], cfulls=[rng.choice([0, 0, 2]) for _ in range(6)], fulls=[rng.choice([0, 0, 1]) for _ in range(12)])
        else:
            yield {'kind': 'server', 'sizes': [rng.randint(1, 4) for _ in range(rng.randint(1, 4))], 'empties': [rng.choice([0, 0, 2]) for _ in range(5)], 'mem': False, 'seed': rng.randint(0, 10**6)}


def check(case):
    k = case['kind']
    if k == 'beat':
        t = dt.datetime.fromisoformat(case['time'])
        st = getattr(ClientState, case['state'])
        hb = Heartbeat(uuid=case['uuid'], host=case['host'], time=t, state=st)
        u = Heartbeat.unpack(hb.pack())
        if not (same(u.uuid, case['uuid']) and same(u.host, case['host']) and same(t, u.time) and u.state is st):
            return f'heartbeat: {hb!r} became {u!r}'
        if not (hb.uuid == case['uuid'] and hb.host == case['host'] and same(t, hb.time) and hb.state is st):
            return 'heartbeat: modified by encoding'
        return
    if k == 'new':
        st = case['state'] and getattr(ClientState, case['state'])
        hb = Heartbeat.new(**({'state': st} if st is not None else {}))
        u = Heartbeat.unpack(hb.pack())
        if (u.uuid, u.host, u.state) != (H.INSTANCE, H.HOSTNAME, st or ClientState.RUNNING) or not same(hb.time, u.time) or u.time.tzinfo is None:
            return f'new heartbeat: {u!r}'
        if abs(u.time.timestamp() - lib.CLOCK.t) > 1e-3:
            return f'new heartbeat: time {u.time} is not now'
        return
    if k == 'info':
        ci = ClientInfo(client_id=case['cid'], client_host=case['host'], task_ids=list(case['ids']))
        u = ClientInfo.unpack(ci.pack())
        if (u.client_id, u.client_host, list(u.task_ids)) != (case['cid'], case['host'], case['ids']):
            return f'confirmation: {ci!r} became {u!r}'
        want = [{'id': i, 'client_id': case['cid'], 'client_host': case['host']} for i in case['ids']]
        if list(u.transpose()) != want:
            return f'transpose: {u.transpose()!r}'
        ts = [Task(id=i, args='x') for i in case['ids']]
        f = ClientInfo.unpack(ClientInfo.from_tasks(ts).pack())
        if (f.client_id, f.client_host, list(f.task_ids)) != (C.INSTANCE, C.HOSTNAME, case['ids']):
            return f'from_tasks: {f!r}'
        return
    if k == 'client':
        r = c05.check(case)
        return r if isinstance(r, str) and 'confirm' in r else None
    return c12.check_conf(case)
