"""C13 on the real code: the heart monitor on a real database under scripted heartbeats and time."""
import random
import datetime as dt
import queue
from concrete import lib, dblib
from concrete.lib import CLOCK, TZ, REAL_DATETIME, FakeDatetime, Stop, Obj, run_machine
from concrete.dblib import *
import hypershell.server as S
from hypershell.core.heartbeat import Heartbeat, ClientState

IDS = [f'c{i}000000-0000-4000-8000-00000000000{i}' for i in range(8)]


def cases(rng, tier):
    hb = lambda i, s='run', skew=0: ['hb', i, s, skew]
    E = ['empty', 2]
    fixed = [
        [E, E, hb(0), E, hb(0), hb(0, 'fin'), E, E],
        [hb(0), hb(1), ['sig'], E, E, E],
        [hb(0), hb(1), hb(2), ['done'], ['sig'], E, hb(0, 'fin'), hb(1, 'fin'), hb(2, 'fin'), E, E],
        [['done'], ['sig'], E, E, hb(0), E, hb(0, 'fin'), E],
        [hb(0), ['adv', 25], E, E, ['adv', 200], E, E, hb(0), E, E],
        [hb(0), hb(1), hb(2), hb(3), ['adv', 70], hb(2), E, ['adv', 40], E, E, ['adv', 60], hb(1), E, hb(0), hb(3), E],
        [hb(0), ['end'], E],
        [hb(0, 'fin'), E, hb(0), E, hb(0, 'fin'), hb(0, 'fin'), E],
        [hb(0), hb(1), ['done'], ['adv', 500], E, E, E, E],
        [hb(0)] + [['adv', 5], hb(1), ['adv', 5], hb(1)] * 15 + [E],
        [hb(0), ['sig'], E, hb(1), E, hb(1, 'fin'), ['sig'], E, E],
        [['done'], ['sig'], E, hb(0), E, hb(1), hb(2), E, hb(0, 'fin'), hb(1, 'fin'), hb(2, 'fin'), E],
        [hb(0), ['sig'], E, hb(1), hb(1), hb(0), E, hb(1, 'fin'), hb(1), E, ['adv', 200], hb(2), E, E],
    ]
    for ev in fixed:
        for mode in (0, 1, 2, 3):
            yield {'kind': 'script', 'ev': ev, 'evict': 100, 'mem': mode & 1, 'noconf': mode >> 1, 'known': [1, 2], 'seed': 1}
    yield {'kind': 'dead', 'clients': 3, 'room': 1}
    for e in (0, 9, 10, 11, 600):
        yield {'kind': 'init', 'evict': e}
    for en in (0, 1):
        for mem in (0, 1):
            for nc in (0, 1):
                yield {'kind': 'wiring', 'enabled': en, 'mem': mem, 'noconf': nc}
    while True:
        n = rng.choice([1, 2, 3, 5, 8])
        ev = []
        for _ in range(rng.choice([8, 20, 40])):
            r = rng.random()
            i = rng.randrange(n)
            ev.append(hb(i, 'run', rng.choice([0, 0, 0, 3, 40])) if r < .45 else hb(i, 'fin') if r < .52 else ['empty', rng.choice([0, 2])] if r < .75 else
                      ['adv', rng.choice([1, 5, 9, 11, 30, 60, 99, 101, 150])] if r < .95 else rng.choice([['sig'], ['sig'], ['done'], ['end']]))
        yield {'kind': 'script', 'ev': ev + [['empty', 2], ['empty', 2]], 'evict': rng.choice([10, 30, 100]), 'mem': int(rng.random() < .2), 'noconf': int(rng.random() < .3),
               'known': [k for k in range(n) if rng.random() < .4], 'seed': rng.randint(0, 10**6)}


class Oracle:
    """What may be observed, from the script and the clock alone."""
    def __init__(self, case):
        self.case = case
        self.state = {}         # id -> 'in' | 'out'
        self.beat = {}          # last running heartbeat (time)
        self.evicted = set()
        self.first = False
        self.sig = False
        self.notes = 0
        self.done = self.end = False
        self.error = None


def now():
    return CLOCK.t


def secs(text):
    return None if text is None else (REAL_DATETIME.fromisoformat(text).replace(tzinfo=TZ)).timestamp()


def check(case):
    if case['kind'] == 'init':
        try:
            m = S.HeartMonitor(queue=Obj(), evict_after=case['evict'])
        except RuntimeError:
            return None if case['evict'] < 10 else 'init: valid eviction period refused'
        return None if case['evict'] < 10 or m.evict_after == dt.timedelta(seconds=case['evict']) else f'init: eviction period {m.evict_after}'
    if case['kind'] == 'wiring':
        return wiring(case)
    if case['kind'] == 'dead':
        return dead(case)
    wipe()
    CLOCK.t = 1_700_000_000.0
    rng = random.Random(case['seed'])
    rows = []
    k = 1
    for c in IDS:
        for st in rng.choices(['scheduled', 'running', 'ok', 'failed', 'cancelled_sched'], k=3):
            r = make(k, st, rng, client=c)
            if st == 'scheduled':
                r.update(client_id=c, client_host='h')
            rows.append(r)
            k += 1
    rows.append(make(k, 'new', rng))
    if case['seed'] % 7 == 3:
        for _ in range(130):
            k += 1
            rows.append(make(k, 'running', rng, client=IDS[0]))
    put(rows)
    old = {IDS[i]: {'id': IDS[i], 'host': f'h{i}', 'server_id': tid(1), 'server_host': 'old', 'connected_at': ts(1), 'disconnected_at': ts(5), 'evicted': 1} for i in case['known']}
    put(old.values(), 'client')
    evict, mem, noconf = case['evict'], bool(case['mem']), bool(case['noconf'])
    tasks0 = table()
    st = {'in': {}, 'first': False, 'sig': False, 'sigset': 0, 'done': False, 'end': False, 'row': {}, 'want_tasks': dict(tasks0), 'last_boundary': now(), 'checkpoint': now()}
    sent = []
    script = [list(e) for e in case['ev']]
    err = []

    def boundary(pending=None):
        """Compare the database with what the script allows."""
        t = now()
        got = table('client')
        newly = []
        for c, beat in list(st['in'].items()):
            if mem:
                continue
            r = got.get(c)
            if r is None:
                err.append(f'register: client {c} not in the database after a running heartbeat')
                return
            conn = r['disconnected_at'] is None and not r['evicted']
            if not conn:
                if not r['evicted'] or r['disconnected_at'] is None:
                    err.append(f'register: connected client marked {r}')
                    return
                if not t - beat > evict:
                    err.append(f'evict: client evicted {t - beat}s after its last heartbeat (period {evict})')
                    return
                newly.append(c)
                st['row'][c].update(evicted=1, disconnected_at='*')
        if newly or mem:
            pass
        late = [c for c, b in st['in'].items() if t - b > evict]
        if newly and set(newly) != set(late):
            err.append(f'evict: only some of the late clients evicted at a check: {sorted(newly)} of {sorted(late)}')
            return
        over = [c for c in late if t - st['polls_since_late'].get(c, t) > evict + 2] if not mem else []
        if not newly and over and st['first'] and not st['sig']:
            err.append(f'evict: clients {over} not evicted long after the period')
            return
        for c in newly:
            del st['in'][c]
            if not noconf:
                for i, r in st['want_tasks'].items():
                    if r['client_id'] == c and interrupted(r):
                        st['want_tasks'][i] = {k: (r[k] if k in ('id', 'args', 'submit_id', 'submit_time', 'submit_host', 'attempt', 'retried', 'previous_id', 'next_id', 'tag') else None) for k in r}
        st['newly'] = newly
        st['polls_since_late'] = {c: st['polls_since_late'].get(c, t) for c in late if c in st['in']}
        # rows
        for c in set(got) | set(st['row']) | set(old):
            want = st['row'].get(c) or old.get(c)
            if want is None:
                err.append(f'register: unexpected client {c}')
                return
            g = got.get(c)
            if g is None:
                err.append(f'register: client {c} missing')
                return
            for k in g:
                if want[k] == '*':
                    if g[k] is None or not (st['last_boundary'] - 1 <= secs(g[k]) <= t + 1):
                        err.append(f'disconnect: {k} of {c} is {g[k]}')
                        return
                    want[k] = g[k]
                elif g[k] != want[k]:
                    err.append(f'register: {k} of client is {g[k]!r}, expected {want[k]!r}')
                    return
        if not mem and table() != st['want_tasks']:
            a = table()
            d = {i: {k: (a[i][k], r[k]) for k in r if a[i][k] != r[k]} for i, r in st['want_tasks'].items() if a.get(i) != r}
            err.append(f'tasks: tasks differ after a check (got, want): {d}')
            return
        if mem and (table() != tasks0 or got != {c: dict(r) for c, r in old.items()}):
            err.append('memory: database used although disabled')
            return
        # notices
        if sent and any(x is not None for x in sent):
            err.append('notice: something else than a disconnect notice sent')
            return
        lo_x, hi_x = st['extra']
        st['extra'] = [0, 0]
        if st['sig'] and st['first']:
            n = len(st['in'])
            hi = n + len(newly)
            st['unsure'] = set(newly) | ({c for c, b in st['in'].items() if t - b > evict} if mem else set())   # evicted before or after they were told
            st['told'] = set(st['in']) | set(newly)
            if mem:      # evictions cannot be observed without the database
                n = len([c for c, b in st['in'].items() if t - b <= evict])
            if not (n + lo_x <= len(sent) <= hi + hi_x):
                err.append(f'notice: {len(sent)} notices for {n} connected clients')
                return
            st['sig'] = False
            m.__dict__.get('x')
        elif not lo_x <= len(sent) <= hi_x:
            err.append(f'notice: {len(sent)} notices without being told' if len(sent) > hi_x else 'notice: a client that connected after the notices were sent is never told')
            return
        sent.clear()
        st['last_boundary'] = t

    st['polls_since_late'] = {}
    st['conn_mem'] = 0
    st['extra'] = [0, 0]
    st['told'], st['unsure'] = None, set()
    st['fed'] = False

    class HQ:
        def get(self, block=True, timeout=None):
            if st['fed']:
                boundary()
                if not err and st['first'] and st['done'] and not st['in']:
                    err.append('stop: goes on although scheduling is over and no client is connected')
                if err:
                    raise Stop('error')
            st['fed'] = True
            while script:
                e = script.pop(0)
                if e[0] == 'adv':
                    CLOCK.advance(e[1])
                elif e[0] == 'sig':
                    m.should_signal = True if hasattr(m, 'should_signal') else None
                    st['sig'] = True
                elif e[0] == 'done':
                    m.scheduler_done = True
                    st['done'] = True
                elif e[0] == 'empty':
                    CLOCK.advance(e[1])
                    st['conn_mem'] = len(st['in'])
                    raise queue.Empty()
                elif e[0] == 'end':
                    st['end'] = True
                    return None
                else:
                    _, i, state, skew = e
                    c = IDS[i]
                    t = now() - skew
                    d = FakeDatetime.fromtimestamp(t, TZ)
                    st['first'] = True
                    if state == 'fin':
                        if c in st['in']:
                            del st['in'][c]
                            if not mem:
                                st['row'][c]['disconnected_at'] = '*'
                    else:
                        if c not in st['in'] and not mem:
                            if c in st['row'] or c in old:
                                r = dict(st['row'].get(c) or old[c])
                                r.update(disconnected_at=None, evicted=0)
                            else:
                                r = {'id': c, 'host': f'h{i}', 'server_id': S.Client.new(id='q').server_id, 'server_host': S.Client.new(id='q').server_host,
                                     'connected_at': d.strftime('%Y-%m-%d %H:%M:%S.%f'), 'disconnected_at': None, 'evicted': 0}
                            st['row'][c] = r
                        if st['told'] is not None and c not in st['in'] and c not in st['told']:
                            st['extra'] = [x + 1 for x in st['extra']]
                            st['told'].add(c)
                        if c in st['unsure'] and state == 'run':
                            st['extra'][1] += 1
                            st['unsure'].remove(c)
                        st['in'][c] = t
                    st['polls_since_late'].pop(c, None)
                    st['conn_mem'] = len(st['in'])
                    return Heartbeat(uuid=c, host=f'h{i}', time=d, state=ClientState.RUNNING if state == 'run' else ClientState.FINISHED).pack()
            raise Stop('script')
        def task_done(self):
            pass

    class SQ:
        def put(self, x, block=True, timeout=None):
            sent.append(x)
    m = S.HeartMonitor(queue=Obj(heartbeat=HQ(), scheduled=SQ()), evict_after=evict, in_memory=mem, no_confirm=noconf)
    try:
        run_machine(m)
        halted = True
    except Stop as e:
        halted = False
        if 'halt' in str(e):
            return 'stop: runs on without polling'
    except Exception as e:
        return f'error: {type(e).__name__}: {e}'
    if err:
        return err[0]
    if halted:
        if not st['end']:
            boundary()
            if err:
                return err[0]
            left = len(st['in'])
            if mem:      # evictions cannot be observed: only late clients may be gone
                left = len([c for c, b in st['in'].items() if now() - b <= evict])
            if not (st['done'] and not left):
                return f'stop: stopped with {left} clients connected, scheduling over: {st["done"]}'
    elif st['end']:
        return 'stop: end marker ignored'


def wiring(case):
    made = {}
    class F:
        def __init__(self, name):
            self.n = name
        def __call__(self, *a, **k):
            made[self.n] = (a, k)
            return Obj(name=self.n)
    names = ['SchedulerThread', 'SubmitThread', 'LiveSubmitThread', 'ConfirmThread', 'ReceiverThread', 'QueueServer', 'HeartMonitorThread']
    old = {n: getattr(S, n) for n in names}
    en = S.DATABASE_ENABLED
    try:
        for n in names:
            setattr(S, n, F(n))
        S.DATABASE_ENABLED = bool(case['enabled'])
        S.ServerThread(source=None, in_memory=bool(case['mem']), no_confirm=bool(case['noconf']), max_retries=0, evict_after=123)
    finally:
        for n, v in old.items():
            setattr(S, n, v)
        S.DATABASE_ENABLED = en
    import inspect
    b = inspect.signature(old['HeartMonitorThread'].__init__).bind(None, *made['HeartMonitorThread'][0], **made['HeartMonitorThread'][1]).arguments
    want = bool(case['mem']) or not case['enabled']
    if b.get('in_memory', False) is not want or b.get('no_confirm', False) is not bool(case['noconf']) or b.get('evict_after') != 123:
        return f'wiring: monitor built with {({k: v for k, v in b.items() if k not in ("self", "queue")})}'


def dead(case):
    """Every client died just before the notices are posted: nobody makes room in the queue, they are to be evicted."""
    CLOCK.t = 1_700_000_000.0
    beats = [Heartbeat(uuid=IDS[i], host='h', time=FakeDatetime.fromtimestamp(now(), TZ), state=ClientState.RUNNING).pack() for i in range(case['clients'])]
    room, polls = [case['room']], [0]

    class HQ:
        def get(self, block=True, timeout=None):
            if beats:
                return beats.pop(0)
            m.should_signal, m.scheduler_done = polls[0] == 0 or m.should_signal, True
            polls[0] += 1
            CLOCK.advance(timeout or 1)
            if polls[0] > 500:
                raise Stop('polls')
            raise queue.Empty()
        def task_done(self):
            pass

    class SQ:
        def put(self, x, block=True, timeout=None):
            if room[0]:
                room[0] -= 1
                return
            if block and timeout is None:
                raise Stop('blocked')
            CLOCK.advance(timeout or 0)
            raise queue.Full()
    m = S.HeartMonitor(queue=Obj(heartbeat=HQ(), scheduled=SQ()), evict_after=100, in_memory=True)
    try:
        run_machine(m)
    except Stop as e:
        if str(e) == 'blocked':
            return 'blocked: the monitor waits for ever for room for a disconnect notice, clients that died are not evicted any more'
