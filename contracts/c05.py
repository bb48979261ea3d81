"""C05: ClientScheduler hands every received task to the local queue exactly once."""
import signal
from pyvc.models import *
from pyvc.core import z3

VARS = ['queue', 'local', 'bundle', 'tasks', 'client_info', 'no_confirm', 'timeout', 'previous_received', 'task']


class TaskContract:
    """unpack is the inverse of pack (proved in C01)."""
    @staticmethod
    def unpack(data):
        if isinstance(data, Wrapped) and data.kind == 'pack':
            v = data.value
            return v.rec if isinstance(v, Frozen) and not v.over else v
        raise Unsupported(f'Task.unpack of {data!r}')


class InfoContract:
    """ClientInfo.from_tasks(ts).pack() encodes this client's id, host and the ids of ts (proved in C02)."""
    def __init__(self, tasks):
        self.tasks = tasks
    @staticmethod
    def from_tasks(tasks):
        return InfoContract(frozen(as_seq(tasks)))
    def pack(self):
        return ConfirmData(self.tasks)


class ConfirmData(Wrapped):
    def __init__(self, tasks):
        super().__init__('confirm', tasks)


def unpacked(seq):
    out = []
    for s in as_seq(seq)._norm().segs:
        out.append(Unit(s.v.value.rec if isinstance(s.v, Wrapped) else s.v) if isinstance(s, Unit) else
                   Map(s if isinstance(s, Var) else s.var, [(z3.BoolVal(True), [s.gen.value.rec])]))
    return SymSeq(out)


class World:
    """Queues, clock and signals around one scheduler, with ghost history."""
    def __init__(self, c, standalone):
        self.C = mod('client')
        self.events = []
        self.received = SymSeq([])       # unpacked tasks of all bundles taken in this step
        self.handed = SymSeq([])
        self.sig = Signals()
        self.bundles = []
        def mk(n):
            return SymSeq([Var(n, lambda k: Wrapped('pack', TaskRec(k).freeze()))])
        def on_get(b):
            self.events.append('bundle')
            self.bundles.append(b)
        self.scheduled = Source('scheduled', mk, on_get=on_get)
        self.confirms = SymSeq([])
        self.confirmed = Sink('confirmed', trace=self.confirms)
        self.confirmed.on_put = lambda v: self.events.append('confirm')
        self.local = Sink('local', trace=self.handed, snap=lambda t: t)
        self.local.on_put = lambda v: self.events.append('hand')
        self.noconf = mkval('bool', 'no_confirm')
        tmo = mkval('int', 'timeout')
        c.assume(tmo.z >= 0)
        self.has_timeout = c.choose([('timeout', None), ('no timeout', None)], 'client') == 0
        self.tmo = tmo
        patch(self.C, Task=TaskContract, ClientInfo=InfoContract, check_signal=self.sig)
        if standalone is not None:
            patch(self.C, CLIENT_STANDALONE_MODE=standalone)
        self.created = clock_read()
        self.m = self.C.ClientScheduler(queue=Module(scheduled=self.scheduled, confirmed=self.confirmed), local=self.local,
                                        no_confirm=self.noconf, timeout=tmo if self.has_timeout else None)


def init(c):
    w = World(c, True)
    r = step_until(w.m, ['GET_REMOTE'])
    declare(w.m, VARS)
    c.prove('scheduler.init: reaches GET_REMOTE, nothing taken or handed out', r == 'GET_REMOTE' and not w.events)
    c.prove('scheduler.init: the waiting period starts no earlier than creation', w.m.previous_received.z >= w.created)
    c.aux('scheduler.init: no tasks pending', seq_eq(w.m.tasks, []))


def get_step(c):
    """Home GET_REMOTE: everything received so far has been handed out, nothing pending."""
    standalone = c.choose([('standalone', None), ('in cluster', None)], 'mode') == 0
    w = World(c, standalone)
    m = w.m
    step_until(m, ['GET_REMOTE'])
    prev = SymTime(clock_read(), False)
    last_bundle = z3.Real('last_bundle')          # ghost: time of the last bundle (or of the start)
    c.assume(last_bundle <= prev.z)
    stale = SymSeq([Var('stale_bundle', lambda k: Opaque(k))])
    havoc(m, previous_received=prev, bundle=stale, tasks=SymSeq([]))
    m.task = TaskRec('stale_task')
    began = clock_read()
    before = c.choose([('no signal yet', None), ('interrupted before', None)], 'signal before') == 1
    if before:
        w.sig.cur = signal.SIGUSR1
    r = step_until(m, ['GET_REMOTE', 'POP_TASK'])
    declare(m, VARS)
    kind = c.env.get('last_scheduled')
    c.cover(f'scheduler {kind} -> {r}')
    c.prove('scheduler: a wait for a bundle is limited in time, so that signals and the timeout are noticed',
            w.scheduled.unlimited == 0 or not (standalone or w.has_timeout))
    if before:
        c.cover(f'scheduler interrupted, standalone {standalone}')
        c.prove('scheduler: an interrupt signal ends intake in standalone mode', r == 'HALT' and kind is None if standalone else kind is not None)
    c.prove('scheduler: once no bundle arrived for the configured timeout, intake ends',
            conj([r == 'HALT']) if kind == 'empty' and w.has_timeout and
            c.branch(z3.And(w.tmo.z > 0, began - prev.z >= z3.ToReal(w.tmo.z)), 'timeout elapsed') else True)
    c.prove('scheduler: no task is handed out before its bundle is confirmed', 'hand' not in w.events)
    if kind == 'item':
        b = w.bundles[0]
        c.prove('scheduler: after a bundle all of its tasks are pending, in order and unchanged',
                conj([r != 'HALT', seq_eq(m.tasks, unpacked(b))]))
        nc = c.branch(w.noconf.z, 'no_confirm')
        if nc:
            c.prove('scheduler: no confirmation when disabled', w.events == ['bundle'])
        else:
            c.prove('scheduler: exactly one confirmation per bundle, before handing out', w.events == ['bundle', 'confirm'])
            d = w.confirms.segs[0].v if w.confirms.segs else None
            c.prove('scheduler: the confirmation lists exactly the tasks of the bundle',
                    isinstance(d, ConfirmData) and seq_eq(d.value, unpacked(b)))
        c.aux('scheduler: waiting period restarts no earlier than the bundle', m.previous_received.z >= prev.z)
        if r == 'GET_REMOTE':
            c.prove('scheduler: goes on taking bundles only when nothing is pending', seq_eq(m.tasks, []))
    else:
        c.prove('scheduler: nothing is confirmed without a bundle', not w.events)
        c.prove('scheduler: nothing becomes pending without a bundle', seq_eq(m.tasks, []))
        if r == 'HALT':
            sig = any(s is not None for s in w.sig.seen)
            if kind == 'end':
                pass
            elif not sig:
                c.prove('scheduler: gives up only when no bundle arrived for the configured timeout',
                        z3.And(z3.BoolVal(kind == 'empty' and w.has_timeout), c.now_last - last_bundle >= z3.ToReal(w.tmo.z)))
        else:
            c.prove('scheduler: a disconnect notice ends intake', kind != 'end')
            if kind == 'empty':
                c.aux('scheduler: an empty poll does not move the waiting period', veq(m.previous_received, prev))


def pop_step(c):
    """POP_TASK: bundle == handed ++ pending."""
    w = World(c, True)
    m = w.m
    step_until(m, ['GET_REMOTE'])
    P = seqvar('pending', lambda n: TaskRec(n))
    H = seqvar('handed', lambda n: TaskRec(n))
    w.handed._set(H.segs)
    prev = SymTime(clock_read(), False)
    havoc(m, previous_received=prev, tasks=P, bundle=SymSeq([Var('stale_bundle', lambda k: Opaque(k))]))
    m.task = TaskRec('stale_task')
    at_state(m, 'POP_TASK')
    total = cat(H, P)
    r = step_until(m, ['POP_TASK', 'GET_REMOTE'], ghost=lambda: {'h': SymSeq(w.handed.segs)})
    declare(m, VARS)
    c.cover(f'scheduler pop -> {r}')
    c.prove('scheduler: every pending task is handed out or still pending, once, in order', seq_eq(total, cat(w.handed, m.tasks)))
    c.prove('scheduler: handing out does not stop half-way', r != 'HALT')
    if r == 'GET_REMOTE':
        c.prove('scheduler: takes the next bundle only when every task of this one was handed out', seq_eq(m.tasks, []))
    c.prove('scheduler: handing out takes or confirms no bundle', 'bundle' not in w.events and 'confirm' not in w.events)
    # what was handed out is the task as received
    for s in w.handed._norm().segs:
        if isinstance(s, Unit) and isinstance(s.v, Record):
            c.prove('scheduler: tasks are handed out unchanged', not s.v.written())
    c.aux('scheduler: handing out does not move the waiting period', veq(m.previous_received, prev))


def membership(initial):
    """Which clients an interrupt ends by itself: one that was started alone, not the one inside a local cluster
    (whose server ends it): the scheduler's step is run at the moment the real start-up code starts the client."""
    def body(c):
        C, L = mod('client'), mod('cluster.local')
        part = c.choose([('alone', None), ('in a local cluster', None)], 'client') == 1
        for k, v in initial.items():
            setattr(C, k, v)
        ended = []
        def step():
            w = World(c, None)
            step_until(w.m, ['GET_REMOTE'])
            havoc(w.m, previous_received=SymTime(clock_read(), False), bundle=SymSeq([]), tasks=SymSeq([]))
            w.sig.cur = signal.SIGUSR1
            r = step_until(w.m, ['GET_REMOTE', 'POP_TASK'])
            ended.append((r == 'HALT', c.env.get('last_scheduled')))
        if part:
            log = []
            client, server = Recorder('client', log), Recorder('server', log)
            client.start = step
            x = bare(L.LocalCluster)
            x.server, x.client = server, client
            with patched((L, 'time', Module(sleep=lambda s: None))):
                x.run_with_exceptions()
        else:
            step()
        for k, v in initial.items():
            setattr(C, k, v)
        c.cover(f'part of a cluster: {part}')
        c.prove('scheduler: the client of a local cluster is started', len(ended) == 1)
        stopped, kind = ended[0]
        if part:
            c.prove('scheduler: an interrupt does not end the client of a local cluster ahead of its server', kind is not None)
        else:
            c.prove('scheduler: an interrupt ends a client that was started by itself', stopped and kind is None)
    return body


def bare(k):
    x = k.__new__(k)
    return x


def run(rep):
    C = mod('client')
    rep.run('LocalCluster.run_with_exceptions', membership({k: v for k, v in vars(C).items() if isinstance(v, bool)}),
            covers=['part of a cluster: True', 'part of a cluster: False'])
    rep.run('ClientScheduler.init', init)
    rep.run('ClientScheduler.GET_REMOTE', get_step,
            covers=['scheduler item -> POP_TASK', 'scheduler empty -> GET_REMOTE', 'scheduler empty -> HALT', 'scheduler end -> HALT', 'scheduler None -> HALT',
                    'scheduler interrupted, standalone True', 'scheduler interrupted, standalone False'])
    rep.run('ClientScheduler.POP_TASK', pop_step, covers=['scheduler pop -> POP_TASK', 'scheduler pop -> GET_REMOTE'])
