"""C12: Receiver and Confirm record every returned result and every confirmation once."""
from pyvc.models import *
from pyvc.core import z3
from pyvc.values import SymBool
from pyvc.runtime import concat
from contracts.c05 import TaskContract as Unpack, unpacked


class Stream:
    """The failures stream: text written to it, as a trace of lines."""
    def __init__(self):
        self.lines = SymSeq([])
    def vc_print(self, args, kw):
        extra = set(kw) - {'file', 'flush'}
        if extra or len(args) != 1:
            raise Unsupported(f'print with {extra or len(args)}')
        self.lines.append(concat([args[0], '\n']))
    def write(self, text):
        z = zstr(text)
        if z is None or ctx().feasible(z3.Not(z3.SuffixOf(z3.StringVal('\n'), z))):
            raise Unsupported('partial line written')
        self.lines.append(text)
    def flush(self):
        pass
    def __bool__(self):
        return True
    def __getattr__(self, a):
        raise Unsupported(f'stream.{a}')


class DB:
    """update_all(changes) applies each mapping to the record with its id (contract of the session,
    see C09/C14 for the statement it issues)."""
    def __init__(self, c):
        self.c, self.trace = c, SymSeq([])
    def update_all(self, changes):
        self.trace.extend(frozen(as_seq(changes)))
    @staticmethod
    def unpack(data):
        return Unpack.unpack(data)
    def __getattr__(self, a):
        raise Unsupported(f'Task.{a}')


VARS = ['queue', 'bundle', 'tasks', 'in_memory', 'redirect_failures']


def receiver(c, received, mode=None):
    S = mod('server')
    db = DB(c)
    patch(S, Task=db)
    def mk(n):
        s = SymSeq([Var(n, lambda k: Wrapped('pack', TaskRec(k).freeze()))])
        c.assume(s.zlen() > 0)                # clients return non-empty bundles only (C06)
        return s
    q = Source('completed', mk, on_get=lambda b: received.append(b))
    out = Stream() if c.choose([('stream', None), ('no stream', None)], 'failures') == 0 else None
    mem = SymBool(z3.Bool('in_memory'))
    m = S.Receiver(queue=Module(completed=q), in_memory=mem, redirect_failures=out)
    return m, q, out, mem, db


def recv_init(c):
    got = []
    m, q, out, mem, db = receiver(c, got)
    r = step_until(m, ['UNLOAD'])
    declare(m, VARS)
    c.prove('receiver.init: reaches UNLOAD with nothing taken or recorded', r == 'UNLOAD' and not got and not db.trace.segs and (out is None or not out.lines.segs))


def recv_step(c):
    got = []
    m, q, out, mem, db = receiver(c, got)
    step_until(m, ['UNLOAD'])
    havoc(m, bundle=SymSeq([Var('stale_bundle', lambda k: Opaque(k))]))
    m.tasks = SymSeq([Var('stale_tasks', lambda k: TaskRec(k))])
    r = step_until(m, ['UNLOAD'])
    declare(m, VARS)
    kind = c.env.get('last_completed')
    c.cover(f'receiver {kind} -> {r}')
    c.prove('receiver: stops exactly on the end marker', (r == 'HALT') == (kind == 'end'))
    if kind != 'item':
        c.prove('receiver: nothing is recorded without a bundle', conj([seq_eq(db.trace, []), out is None or seq_eq(out.lines, [])]))
        return
    ts = unpacked(got[0])
    if c.branch(mem.z, 'in_memory'):
        c.prove('receiver: the database is not used when disabled', seq_eq(db.trace, []))
    else:
        c.prove('receiver: every returned task is written to the database once with all its values', seq_eq(db.trace, packs(ts, 'to_dict')))
    if out is not None:
        v = ts.segs[0]
        g = v.gen if isinstance(v, Var) else v.branches[0][1][0]
        v = v if isinstance(v, Var) else v.var
        null, st = raw(g, 'exit_status')
        bad = z3.Or(null, st != 0)
        line = concat([g.freeze().get('args'), '\n'])
        want = SymSeq([Map(v, [(bad, [line]), (z3.Not(bad), [])])])
        c.prove('receiver: the arguments of exactly the failed tasks are written to the failures stream, in order, one per line', seq_eq(out.lines, want))


class Info:
    def __init__(self, data):
        self.data = data
        for k in ('client_id', 'client_host'):
            setattr(self, k, mkval('str', f'{data.name}.{k}'))
        self.task_ids = SymSeq([Var(f'{data.name}.task_ids', lambda n: mkval('str', n))])
    @staticmethod
    def unpack(data):
        if not isinstance(data, Opaque):
            raise Unsupported('ClientInfo.unpack')
        return Info(data)
    def transpose(self):
        return SymSeq([Unit(Wrapped('assignments', self.data))])     # C02: one assignment per listed task


CVARS = ['queue', 'client_data', 'client_info', 'in_memory']


def confirm(c, got):
    S = mod('server')
    db = DB(c)
    patch(S, Task=db, ClientInfo=Info)
    def mk(n):
        o = Opaque(n)
        c.assume(z3.BoolVal(True) if not hasattr(o, 'z') else z3.BoolVal(True))
        return Data(n)
    q = Source('confirmed', mk, on_get=got.append)
    mem = SymBool(z3.Bool('in_memory'))
    return S.Confirm(queue=Module(confirmed=q), in_memory=mem), q, mem, db


class Data(Opaque):
    """Encoded confirmation: non-empty bytes."""
    def __bool__(self):
        return True


def conf_init(c):
    got = []
    m, q, mem, db = confirm(c, got)
    r = step_until(m, ['UNLOAD'])
    declare(m, CVARS)
    c.prove('confirm.init: reaches UNLOAD with nothing taken or recorded', r == 'UNLOAD' and not got and not db.trace.segs)


def conf_step(c):
    got = []
    m, q, mem, db = confirm(c, got)
    step_until(m, ['UNLOAD'])
    if c.choose([('first', None), ('later', None)], 'state') == 1:
        havoc(m, client_data=Data('stale_data'), client_info=Info(Data('stale_info')))
    r = step_until(m, ['UNLOAD'])
    declare(m, CVARS)
    kind = c.env.get('last_confirmed')
    c.cover(f'confirm {kind} -> {r}')
    c.prove('confirm: stops exactly on the end marker', (r == 'HALT') == (kind == 'end'))
    if kind == 'item' and not c.branch(mem.z, 'in_memory'):
        c.prove('confirm: every confirmation assigns its client to its tasks exactly once', seq_eq(db.trace, [Wrapped('assignments', got[0])]))
    else:
        c.prove('confirm: no assignment without a confirmation or without a database', seq_eq(db.trace, []))


def threads(c):
    S = mod('server')
    q, f, mem = Opaque('queue'), Opaque('failures'), Opaque('in_memory')
    t = S.ReceiverThread(queue=q, in_memory=mem, redirect_failures=f)
    c.prove('ReceiverThread: options reach the receiver', t.machine.queue is q and t.machine.in_memory is mem and t.machine.redirect_failures is f)
    u = S.ConfirmThread(queue=q, in_memory=mem)
    c.prove('ConfirmThread: options reach the machine', u.machine.queue is q and u.machine.in_memory is mem)
    for n, x in (('ReceiverThread', t), ('ConfirmThread', u)):
        log = []
        x.machine = Recorder('machine', log)
        x.run_with_exceptions()
        c.prove(f'{n}: runs its machine', len(where(log, 'machine.run')) == 1)


def f_recv(queue, in_memory=False, redirect_failures=None): ...
def f_conf(queue, in_memory=False): ...


def server(c):
    S = mod('server')
    log = []
    F = {n: Factory(n, log) for n in ('SchedulerThread', 'SubmitThread', 'LiveSubmitThread', 'ConfirmThread', 'ReceiverThread', 'HeartMonitorThread', 'QueueServer')}
    enabled = c.choose([('database', None), ('no database', None)], 'config') == 0
    mem = c.choose([('db', None), ('in memory', None)], 'mode') == 1
    noconf = c.choose([('confirm', None), ('no confirm', None)], 'confirm') == 1
    with patched(*[(S, n, f) for n, f in F.items()], (S, 'DATABASE_ENABLED', enabled)):
        f = Opaque('failures')
        t = S.ServerThread(source=None, in_memory=mem, no_confirm=noconf, max_retries=0, redirect_failures=f)
        a, k, _ = F['ReceiverThread'].made[0]
        kw = bind(f_recv, a, k)
        q = F['QueueServer'].made[0][2]
        c.prove('ServerThread: the receiver gets the queue, the failures stream, and the database unless disabled',
                kw['queue'] is q and kw['redirect_failures'] is f and kw['in_memory'] is (mem or not enabled))
        if noconf:
            c.prove('ServerThread: no confirmation thread when disabled', not F['ConfirmThread'].made)
        else:
            a, k, _ = F['ConfirmThread'].made[0]
            kw = bind(f_conf, a, k)
            c.prove('ServerThread: the confirmation thread gets the queue and the database unless disabled', kw['queue'] is q and kw['in_memory'] is (mem or not enabled))


def run(rep):
    rep.run('Receiver.init', recv_init)
    rep.run('Receiver.UNLOAD', recv_step, covers=['receiver item -> UNLOAD', 'receiver empty -> UNLOAD', 'receiver end -> HALT'])
    rep.run('Confirm.init', conf_init)
    rep.run('Confirm.UNLOAD', conf_step, covers=['confirm item -> UNLOAD', 'confirm empty -> UNLOAD', 'confirm end -> HALT'])
    rep.run('ReceiverThread/ConfirmThread', threads)
    rep.run('ServerThread', server)
