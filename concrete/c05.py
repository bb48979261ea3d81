"""C05 on the real code: ClientScheduler with scripted server queues, signals and clock."""
import itertools
import json
import signal as _sig
from concrete.lib import CLOCK, InQ, OutQ, run_machine, setup, Obj, Stop, rand_text
hs = setup()
from hypershell import client as C
from hypershell.cluster import local as L
from hypershell.core import signal as SG
from hypershell.core.logging import HOSTNAME, INSTANCE
from hypershell.data.model import Task


def cases(rng, tier):
    base = {'fulls': [], 'cfulls': [], 'no_confirm': False, 'timeout': None, 'standalone': True}
    for sizes in itertools.product((1, 2, 3), repeat=2):
        for nc in (False, True):
            for f in (0, 1, 2):
                yield dict(base, kind='run', script=[['b', s] for s in sizes] + [['end']], no_confirm=nc, fulls=[f] * 6, cfulls=[f] * 3)
    for tmo in (None, 1, 5, 10):
        for k in range(0, 8):
            yield dict(base, kind='run', script=[['b', 2]] + [['empty']] * k + [['b', 1], ['empty'], ['empty'], ['empty'], ['end']], timeout=tmo)
    for pos in range(0, 4):
        for s in ('USR1', 'USR2'):
            for st in (True, False):
                sc = [['b', 1], ['empty'], ['b', 2], ['end']]
                sc.insert(pos, ['sig', s])
                yield dict(base, kind='run', script=sc, standalone=st)
    for pos in range(0, 4):
        for s in ('USR1', 'USR2'):
            sc = [['b', 1], ['empty'], ['b', 2], ['end']]
            sc.insert(pos, ['sig', s])
            yield dict(base, kind='cluster', script=sc, standalone=False)
    yield dict(base, kind='run', script=[['end']])
    while True:
        n = rng.randint(0, 6)
        sc = []
        for _ in range(n):
            r = rng.random()
            sc.append(['b', rng.randint(1, 4)] if r < 0.5 else ['empty'] if r < 0.92 else ['sig', rng.choice(['USR1', 'USR2'])])
        if rng.random() < 0.8:
            sc.append(['end'])
        yield {'kind': 'run', 'script': sc, 'no_confirm': rng.random() < 0.3, 'timeout': rng.choice([None, None, 2, 4, 9]),
               'standalone': rng.random() < 0.7, 'fulls': [rng.choice([0, 0, 1, 3]) for _ in range(10)], 'cfulls': [rng.choice([0, 0, 2]) for _ in range(6)],
               'texts': [rand_text(rng) for _ in range(4)]}


def content(t):
    return json.loads(t.pack().decode())


def check(case):
    """Alone the flag is set here; in a local cluster its own start-up code decides what the client does."""
    try:
        if case['kind'] == 'run':
            C.set_client_standalone(case['standalone'])
            return scenario(case)
        C.set_client_standalone(True)
        out = []
        x = L.LocalCluster.__new__(L.LocalCluster)
        quiet = dict(start=lambda: None, join=lambda timeout=None: None)
        x.server, x.client = Obj(**quiet), Obj(**dict(quiet, start=lambda: out.append(scenario(case))))
        saved, L.time = L.time, Obj(sleep=CLOCK.advance)
        try:
            x.run_with_exceptions()
        finally:
            L.time = saved
        return out[0] if out else 'intake: the client of the cluster is not started'
    finally:
        SG.RECEIVED = None
        C.set_client_standalone(True)


def scenario(case):
    log = []
    SG.RECEIVED = None
    state = {'last': CLOCK.t, 'k': 0, 'why': None, 'over': False}
    bundles = []
    texts = case.get('texts') or ['echo 1']
    script = list(case['script'])
    class Sched:
        def get(self, block=True, timeout=None):
            import queue
            if SG.RECEIVED is not None and case['standalone']:
                raise Stop('late: asks for another bundle after an interrupt signal')
            if state['over']:
                raise Stop('late: asks for another bundle after the timeout has elapsed without one')
            while script and script[0][0] == 'sig':
                SG.RECEIVED = getattr(_sig, 'SIG' + script.pop(0)[1])
            if not script:
                raise Stop('script')
            ev = script.pop(0)
            while script and script[0][0] == 'sig':
                SG.RECEIVED = getattr(_sig, 'SIG' + script.pop(0)[1])
            if ev[0] == 'empty':
                if block and timeout is None and (case['timeout'] or case['standalone']):
                    raise Stop('late: waits without time limit for a bundle, past timeout and signals')
                CLOCK.advance(timeout or 0)
                state['over'] = bool(case['timeout']) and CLOCK.t - state['last'] >= case['timeout']
                raise queue.Empty()
            CLOCK.advance(0.5)
            state['last'] = CLOCK.t
            if ev[0] == 'end':
                state['why'] = 'end'
                return None
            b = []
            for i in range(ev[1]):
                state['k'] += 1
                b.append(Task.new(args=texts[state['k'] % len(texts)] + f' #{state["k"]}', tag={'i': state['k']}))
            bundles.append(b)
            log.append(('bundle', len(bundles) - 1))
            return [t.pack() for t in b]
        def task_done(self):
            pass
    local = OutQ(case['fulls'], log=log, name='hand', snap=content)
    conf = OutQ(case['cfulls'], log=log, name='confirm', snap=lambda b: json.loads(b.decode()))
    m = C.ClientScheduler(queue=Obj(scheduled=Sched(), confirmed=conf), local=local, no_confirm=case['no_confirm'], timeout=case['timeout'])
    halted = True
    try:
        run_machine(m)
    except Stop as e:
        if str(e).startswith('late'):
            return f'intake: {str(e)[6:]}'
        if 'script' not in str(e):
            raise
        halted = False
    at = CLOCK.t
    sig = SG.RECEIVED if case['standalone'] else None
    want = [content(t) for b in bundles for t in b]
    if local.items != want:
        return f'hand-out: {len(local.items)} tasks handed out for {len(want)} received, or altered / out of order'
    exp = []
    for i, b in enumerate(bundles):
        exp.append(('bundle', i))
        if not case['no_confirm']:
            exp.append(('confirm', {'client_id': INSTANCE, 'client_host': HOSTNAME, 'task_ids': [t.id for t in b]}))
        exp += [('hand', content(t)) for t in b]
    if log != exp:
        kinds = [(e[0]) for e in log]
        if [e for e in kinds if e == 'confirm'] != [e[0] for e in exp if e[0] == 'confirm']:
            return f'confirmations: {kinds}'
        return f'order or confirmation contents: {kinds}'
    if halted and state['why'] != 'end' and sig is None:
        if case['timeout'] is None:
            return 'intake: stopped without disconnect, signal or timeout'
        if at - state['last'] < case['timeout']:
            return f'intake: gave up {at - state["last"]} s after the last bundle with timeout {case["timeout"]}'
    if not halted and state['why'] == 'end':
        return 'intake: continues after the disconnect notice'
