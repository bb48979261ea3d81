"""C07 on the real code: TaskExecutor with scripted processes and clock, and with real processes."""
import itertools
import json
import os
from concrete import lib
from concrete.lib import CLOCK, InQ, OutQ, run_machine, setup, Obj, Stop
from concrete.exec_lib import FakeProc
hs = setup()
from hypershell import client as C
from hypershell.core import signal as SG
from hypershell.core.logging import HOSTNAME, INSTANCE
from hypershell.data.model import Task
from hypershell.core.config import config
from hypershell.core.platform import default_path

REAL_POPEN = C.Popen
FIELDS = ['id', 'args', 'submit_id', 'submit_time', 'submit_host', 'server_id', 'server_host', 'schedule_time', 'attempt', 'retried', 'previous_id', 'next_id', 'tag']


def T(kind='ok', life=0.5, code=0, **k):
    return dict({'kind': kind, 'life': life, 'code': code}, **k)


def cases(rng, tier):
    for code in (0, 1, 2, 127, 255, -9):
        for life in (0, 0.4, 1, 2.6, 61.2):
            yield {'kind': 'fake', 'tasks': [T(life=life, code=code)], 'fulls': [2], 'waits': [7.4], 'capture': False}
    for ks in itertools.product(('ok', 'expand', 'popen', 'value', 'env'), repeat=3):
        yield {'kind': 'fake', 'tasks': [T(k, code=3) for k in ks], 'fulls': [0, 1, 0], 'waits': [0, 100.9, 3], 'capture': False}
    for ks in itertools.product(('ok', 'popen', 'expand', 'open'), repeat=2):
        yield {'kind': 'fake', 'tasks': [T(k, code=3) for k in ks] + [T()], 'fulls': [], 'waits': [1, 2, 3], 'capture': True}
    yield {'kind': 'real', 'cmds': ['exit 3', 'true', 'echo hi', 'false', 'nonexistent-cmd-zz', 'kill -9 $$', 'a\x00b', 'exit 0'], 'capture': True}
    yield {'kind': 'real', 'cmds': ['exit 7', 'x\x00', 'true', 'exit 1'], 'capture': False}
    yield {'kind': 'cwd', 'capture': False}
    for at in itertools.product((0, 1), repeat=8):
        yield {'kind': 'pair', 'n': 1, 'turns': list(at), 'codes': [0, 3]}
    while True:
        if rng.random() < 0.1:
            yield {'kind': 'pair', 'n': rng.randint(1, 5), 'turns': [rng.randint(0, 1) for _ in range(60)], 'codes': [0, 1, 2]}
            continue
        n = rng.randint(1, 5)
        yield {'kind': 'fake', 'capture': rng.random() < 0.3, 'fulls': [rng.choice([0, 0, 1, 3]) for _ in range(n)],
               'waits': [rng.choice([0, 0.5, 1, 59.999, 1e5]) for _ in range(n)],
               'tasks': [T(rng.choice(['ok', 'ok', 'ok', 'expand', 'popen', 'value', 'env', 'open']), rng.choice([0, 0.3, 0.999, 1.5, 17.2]), rng.choice([0, 0, 1, 9, 130, -11])) for _ in range(n)],
               'limit': rng.choice([None, None, 3, 10]), 'signalwait': rng.choice([0, 1, 4])}


def make(i, spec, wait):
    args = {'expand': '{'}.get(spec['kind'], f'echo {i}')
    t = Task.new(args=args, tag={'i': i})
    t.attempt, t.schedule_time, t.server_id = 1 + i % 2, t.submit_time, 's'
    CLOCK.advance(wait)
    return t


def check(case):
    SG.RECEIVED = None
    return globals()['check_' + case['kind']](case)


def check_fake(case):
    tasks, script, specs = [], [], {}
    for i, (s, w) in enumerate(zip(case['tasks'], case['waits'])):
        t = make(i, s, w)
        tasks.append(t)
        specs[t.args] = s
        script.append(('item', t, 0.25))
        script.append(('empty', 1.0))
    script.append(('end',))
    original = {t.id: {f: getattr(t, f) for f in FIELDS} for t in tasks}
    events = []
    launched = {}
    inq = InQ(script, log=events, name='get')
    outq = OutQ(case['fulls'], log=events, name='put', snap=lambda t: (t, {f: getattr(t, f) for f in Task.columns}))
    current = {}
    def popen(cmd, **kw):
        spec = current['spec']
        if spec['kind'] == 'popen':
            raise FileNotFoundError('no such directory')
        if spec['kind'] == 'value':
            raise ValueError('embedded null byte')
        p = FakeProc(spec['life'], spec['code'], react={'INT': 0.1})
        launched.setdefault(current['id'], []).append((cmd, kw, CLOCK.t, p))
        events.append(('launch', current['id']))
        return p
    def env(task):
        if current['spec']['kind'] == 'env':
            raise RuntimeError('environment')
        assert task.id == current['id']
        d = 'missing/' if current['spec']['kind'] == 'open' else ''
        return {'TASK_OUTPATH': os.path.join(lib.scratch(), f'{d}o{os.getpid()}'), 'TASK_ERRPATH': os.path.join(lib.scratch(), f'{d}e{os.getpid()}'), 'TASK_ID': task.id}
    class Tmpl:
        def __init__(self, t): self.t = t
        def expand(self, args):
            if current['spec']['kind'] == 'expand':
                raise RuntimeError('expand')
            return 'run ' + args
    real_get = inq.get
    def get(*a, **k):
        t = real_get(*a, **k)
        if t is not None:
            current.update(id=t.id, spec=case['tasks'][tasks.index(t)], at=CLOCK.t)
        return t
    inq.get = get
    saved = C.Popen, C.task_env, C.Template
    C.Popen, C.task_env, C.Template = popen, env, Tmpl
    try:
        m = C.TaskExecutor(id=1, inbound=inq, outbound=outq, template='t', capture=case['capture'], timeout=case.get('limit'), signalwait=case.get('signalwait', 10))
        run_machine(m)
    finally:
        C.Popen, C.task_env, C.Template = saved
    puts = [v for v in outq.items]
    if [t.id for t, _ in puts] != [t.id for t in tasks]:
        return f'hand-back: {len(puts)} results for {len(tasks)} tasks, or out of order'
    pending = None
    for name, v in events:
        if name == 'get' and v is not None:
            if pending:
                return 'order: a task was taken before the previous one was handed back'
            pending = v.id
        elif name == 'put':
            pending = None
    for (t, rec), spec in zip(puts, case['tasks']):
        if {f: getattr(t, f) for f in Task.columns} != rec:
            return 'record: modified after it was handed back'
        for f, v in original[t.id].items():
            if rec[f] != v:
                return f'record: field {f} changed'
        if (rec['client_id'], rec['client_host']) != (INSTANCE, HOSTNAME):
            return 'record: not the id and host of this client'
        ls = launched.get(t.id, [])
        kind = spec['kind']
        if kind == 'open' and not case['capture']:
            kind = 'ok'
        if kind == 'ok':
            if len(ls) != 1:
                return f'launch: {len(ls)} processes for one task'
            cmd, kw, at, p = ls[0]
            if cmd != 'run ' + t.args or rec['command'] != cmd or not kw.get('shell'):
                return f'command: ran {cmd!r}, recorded {rec["command"]!r}'
            if kw.get('env', {}).get('TASK_ID') != t.id:
                return 'environment: not that of the task'
            if rec['exit_status'] != p.code or type(rec['exit_status']) is not int:
                return f'status: reported {rec["exit_status"]} for {p.code}'
            st, ct = rec['start_time'].timestamp(), rec['completion_time'].timestamp()
            if st > at + 1e-6 or ct < p.ended_at - 1e-6 or ct < st:
                return f'times: start {st} completion {ct} for a run {at}..{p.ended_at}'
            if rec['duration'] != int(ct - st + 1e-7) and rec['duration'] != int(ct - st):
                return f'duration: {rec["duration"]} for {ct - st}'
            w = st - rec['submit_time'].timestamp()
            if rec['waited'] not in (int(w), int(w + 1e-6)):
                return f'waited: {rec["waited"]} for {w}'
        else:
            if ls:
                return 'launch: a task that failed to start was started'
            if not rec['exit_status']:
                return f'failed start: reported with status {rec["exit_status"]}'
            if rec['completion_time'] is None:
                return 'failed start: not reported as completed'


def run_real(cmds, capture, cwd=None):
    C.Popen = REAL_POPEN
    tasks = [Task.new(args=c) for c in cmds]
    inq = InQ([('item', t, 0) for t in tasks] + [('end',)])
    outq = OutQ([])
    os.makedirs(os.path.join(default_path.lib, 'task'), exist_ok=True)
    null = open(os.devnull, 'w')
    m = C.TaskExecutor(id=1, inbound=inq, outbound=outq, template='{}', capture=capture, redirect_output=null, redirect_errors=null)
    old = config.task.cwd
    if cwd:
        config.task['cwd'] = cwd
    try:
        run_machine(m)
    finally:
        config.task['cwd'] = old
    if [t.id for t in outq.items] != [t.id for t in tasks]:
        return 'real: tasks lost'
    return outq.items


def check_real(case):
    want = {'exit 3': 3, 'true': 0, 'echo hi': 0, 'false': 1, 'nonexistent-cmd-zz': 127, 'kill -9 $$': -9, 'exit 0': 0, 'exit 7': 7, 'exit 1': 1}
    r = run_real(case['cmds'], case['capture'])
    if isinstance(r, str):
        return r
    for t in r:
        if '\x00' in t.args:
            if not t.exit_status:
                return 'real: unstartable command reported as success'
        elif t.exit_status != want[t.args]:
            return f'real: {t.args!r} reported {t.exit_status}'
        elif case['capture'] and t.args == 'echo hi' and open(t.outpath).read() != 'hi\n':
            return 'real: captured output differs'


def check_cwd(case):
    r = run_real(['true', 'true'], False, cwd=os.path.join(lib.scratch(), 'does-not-exist'))
    if isinstance(r, str):
        return r
    if any(not t.exit_status for t in r):
        return 'cwd: task without working directory reported as success'


def check_pair(case):
    """Two executors of one client share the queue of tasks and the output streams; every interleaving of their steps."""
    import io, queue
    codes = case['codes']
    tasks = [Task.new(args=f'run {i}') for i in range(case['n'])]
    want = {t.id: codes[i % len(codes)] for i, t in enumerate(tasks)}
    inq, outq = queue.Queue(), queue.Queue()
    for t in tasks + [None, None]:
        inq.put(t)
    out, err = io.StringIO(), io.StringIO()
    def popen(cmd, stdout=None, stderr=None, **kw):
        if stdout.closed or stderr.closed:
            raise ValueError('I/O operation on closed file')
        return FakeProc(0.4, next(want[t.id] for t in tasks if t.args == cmd))
    saved = C.Popen
    C.Popen = popen
    try:
        ms = [C.TaskExecutor(id=i, inbound=inq, outbound=outq, template='{}', redirect_output=out, redirect_errors=err) for i in (0, 1)]
        turns = list(case['turns'])
        n = 0
        while any(m.state is not m.states.HALT for m in ms):
            n += 1
            if n > 2000:
                return 'pair: an executor does not end'
            m = ms[turns.pop(0) if turns else n % 2]
            if m.state is not m.states.HALT:
                m.state = m.next()
    finally:
        C.Popen = saved
    got = {}
    while not outq.empty():
        t = outq.get()
        if t.id in got:
            return 'pair: a task is handed back twice'
        got[t.id] = t.exit_status
    if got != want:
        return f'pair: statuses {list(got.values())} for {list(want.values())}'
