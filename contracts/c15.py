"""C15: ordered shutdown.  ClientThread and ServerThread are run against components given by their own
contracts (C03-C13): a component ends only as its contract says, so it is enough that every end marker
is put, and every join made, in the required order.  The number of executors is arbitrary."""
from pyvc.models import *
from pyvc.core import z3
from pyvc.values import SymBool, Wrapped
from pyvc import runtime
from contracts import c03, c04
from contracts.c12 import f_recv, f_conf


class Exec:
    """One executor thread of a list of any length; what happens to it is appended to the ghost
    traces of the world, so that loops over the list are summarised."""
    def __init__(self, w, kw):
        self.w, self.kw = w, kw
        self.id = kw['id']
    def start(self):
        self.w.event('executor.start')
        self.w.started.append(Wrapped('executor', self.id))
    def join(self, timeout=None):
        w = self.w
        if timeout is not None:
            return                           # may still run afterwards
        w.event('executor.join')
        w.c.prove('client: an executor is awaited only after every executor was sent its own end marker', w.inbound.trace.zlen() == w.size())
        w.c.prove('client: every executor is started before any is awaited', seq_eq(w.started, w.all()))
        w.joined.append(Wrapped('executor', self.id))
    def is_alive(self):
        return self.w.alive('executor')
    def __getattr__(self, a):
        raise Unsupported(f'executor.{a}')


class Marks(Sink):
    """Local queue of the client, seen from its main thread."""
    def __init__(self, w, name):
        super().__init__(name, full=False)
        self.w = w
    def put(self, item, block=True, timeout=None):
        w, c = self.w, self.w.c
        c.prove(f'client: only end markers are put on the {self.name} queue by the main thread', item is None)
        if (not block or timeout is not None) and w.waits and not w.over:
            raise QueueFull()
        w.event(f'{self.name}.end')
        self.trace.append(None)


ALLOWED = {           # event: events that must have happened before
    'scheduler.start': ['enter'], 'collector.start': ['enter'], 'heartbeat.start': ['enter'], 'executor.start': ['enter'],
    'scheduler.join': ['scheduler.start'],
    'inbound.end': ['scheduler.join'],
    'outbound.end': [],
    'collector.join': ['outbound.end', 'collector.start'],
    'finished': ['collector.join'],
    'heartbeat.join': ['finished', 'heartbeat.start'],
    'exit': ['heartbeat.join'],
    'executor.join': ['scheduler.join'],
    'enter': [],
}


class ClientWorld:
    def __init__(self, c):
        self.c = c
        self.seen = []
        self.started, self.joined = SymSeq([]), SymSeq([])
        self.inbound, self.outbound = Marks(self, 'inbound'), Marks(self, 'outbound')
        self.n = mkval('int', 'num_tasks')
        c.assume(self.n.z >= 0)
        self.waits = c.choose([('ended', None), ('waits', None)], 'awaited parts have ended / are still at work, queues full') == 1
        self.testing = self.over = False
    def alive(self, name):
        """All parts work until told to end; within the condition of a waiting loop: until it is over."""
        if self.testing:
            return self.waits and not self.over
        return f'{name}.start' in self.seen and f'{name}.join' not in self.seen or name == 'executor'
    def loop(self, test, body):
        """Waiting loops: one iteration changes nothing, so any number of them leaves the same state."""
        def cond():
            self.testing = True
            try:
                return bool(test())
            finally:
                self.testing = False
        def state():
            return [e for e in self.seen if not e.startswith('executor')], [q.zlen() for q in (self.started, self.joined, self.inbound.trace, self.outbound.trace)]
        for self.over in (False, True):
            if not cond():
                self.over = False
                return None
            before = state()
            r = body()
            if r is not None:
                self.over = False
                return None if r is runtime.BREAK else r
            after = state()
            if after[0] != before[0] or any(self.c.feasible(x != y) for x, y in zip(after[1], before[1])):
                raise Unsupported('while loop that is no waiting loop')
        raise Unsupported('waiting loop that does not end')
    def size(self):
        return self.n.z
    def event(self, e):
        c = self.c
        for b in ALLOWED[e]:
            c.prove(f'client: {e} only after {b}', b in self.seen)
        c.prove(f'client: nothing happens after the client disconnected ({e})', 'exit' not in self.seen)
        if e == 'outbound.end':
            c.prove('client: the end marker of the collector is put only after every executor ended', seq_eq(self.joined, self.all()))
        if not e.startswith('executor') and e != 'inbound.end':
            c.prove(f'client: {e} happens once', e not in self.seen)
        self.seen.append(e)
    def all(self):
        out = []
        for s in self.execs()._norm().segs:
            out.append(Unit(Wrapped('executor', s.v.id)) if isinstance(s, Unit) else
                       Map(s if isinstance(s, Var) else s.var, [(b, [Wrapped('executor', v.id) for v in vs]) for b, vs in ([(z3.BoolVal(True), [s.gen])] if isinstance(s, Var) else s.branches)]))
        return SymSeq(out)
    def execs(self):
        return as_seq(self.thread.executors)


class Part:
    """A component thread: start/join/... become events of the world."""
    def __init__(self, w, name, extra=()):
        self.w, self.name, self.extra = w, name, dict(extra)
    def start(self):
        self.w.event(f'{self.name}.start')
    def join(self, timeout=None):
        if timeout is None:
            self.w.event(f'{self.name}.join')
    def is_alive(self):
        return self.w.alive(self.name)
    def __getattr__(self, a):
        if a in self.__dict__.get('extra', {}):
            return self.extra[a]
        raise Unsupported(f'{self.name}.{a}')


class Conn:
    def __init__(self, w):
        self.w = w
    def __enter__(self):
        self.w.event('enter')
        return self
    def __exit__(self, *a):
        self.w.event('exit')
    def __getattr__(self, a):
        raise Unsupported(f'client connection .{a}')


def f_sched(queue, local, no_confirm=False, timeout=None): ...
def f_coll(queue, local, bundlesize=None, bundlewait=None): ...
def f_beat(queue, heartrate=None): ...
def f_task(id, inbound, outbound, template=None, capture=False, redirect_output=None, redirect_errors=None, timeout=None, signalwait=None): ...


def client_thread(c):
    C = mod('client')
    w = ClientWorld(c)
    made = {}
    def part(name, sig, extra=()):
        def make(*a, **k):
            if name in made:
                raise Unsupported(f'two {name}s')
            made[name] = bind(sig, a, k)
            return Part(w, name, extra)
        return make
    queues = []
    def queue(*a, **k):
        if len(queues) == 2:
            raise Unsupported('more than two local queues')
        q = (w.inbound, w.outbound)[len(queues)]
        queues.append(q)
        return q
    tasks = []
    def task(*a, **k):
        kw = bind(f_task, a, k)
        tasks.append(kw)
        return Exec(w, kw)
    conn = Conn(w)
    with patched((C, 'QueueClient', lambda *a, **k: conn), (C, 'QueueConfig', lambda *a, **k: Opaque('config')), (C, 'Queue', queue),
                 (C, 'ClientSchedulerThread', part('scheduler', f_sched)), (C, 'ClientCollectorThread', part('collector', f_coll)),
                 (C, 'ClientHeartbeatThread', part('heartbeat', f_beat, {'signal_finished': lambda: w.event('finished')})),
                 (C, 'TaskThread', task)):
        delay = mkval('real', 'delay_start')
        w.thread = t = C.ClientThread(num_tasks=w.n, delay_start=delay, bundlesize=mkval('int', 'bundlesize'), address=(Opaque('host'), Opaque('port')), auth=Opaque('auth'))
        ex = as_seq(t.executors)
        c.prove('ClientThread: as many executors as requested', ex.zlen() == w.n.z)
        lin, lout = made['scheduler']['local'], made['collector']['local']
        if lin is w.outbound:                        # creation order of the two queues is free
            w.inbound, w.outbound = w.outbound, w.inbound
            w.inbound.name, w.outbound.name = 'inbound', 'outbound'
        c.prove('ClientThread: two distinct local queues', lin is w.inbound and lout is w.outbound)
        for kw in tasks:
            c.prove('ClientThread: every executor reads the queue filled by the scheduler and fills the one read by the collector', kw['inbound'] is lin and kw['outbound'] is lout)
        c.prove('ClientThread: all components use the same connection', all(made[k]['queue'] is conn for k in made) and len(made) == 3)
        c.prove('ClientThread: nothing is started or sent before it runs', not w.seen)
        def uniform(a, b):
            r = SymReal(z3.Real(c.fresh_name('uniform')))
            lo, hi = [toreal(znum(x)) for x in (a, b)]
            c.solver.add(z3.Or(z3.And(lo <= r.z, r.z <= hi), z3.And(hi <= r.z, r.z <= lo)))
            return r
        class Loops(dict):
            def get(self, q, d=None):
                return w.loop
        with patched((C, 'random', Module(uniform=uniform)), (runtime, 'LOOPS', Loops())):
            t.run_with_exceptions()
    c.cover('client ran to the end')
    sl = c.env.get('sleeps', [])
    tot = z3.RealVal(0)
    for s in sl:
        tot = tot + toreal(znum(s))
    c.prove('ClientThread: waits the start delay, or a random time up to its absolute value, or not at all',
            z3.And(z3.Implies(delay.z >= 0, tot == delay.z), z3.Implies(delay.z < 0, z3.And(tot >= 0, tot <= -delay.z))))
    c.prove('client: every executor is started', seq_eq(w.started, w.all()))
    c.prove('client: every executor is awaited', seq_eq(w.joined, w.all()))
    c.prove('client: exactly one end marker per executor', w.inbound.trace.zlen() == w.n.z)
    c.prove('client: one end marker for the collector', w.outbound.trace.zlen() == 1)
    c.prove('client: every stage is started and awaited before the client is done',
            all(e in w.seen for e in ('scheduler.start', 'collector.start', 'heartbeat.start', 'scheduler.join', 'collector.join', 'finished', 'heartbeat.join', 'exit')))


# --------------------------------------------------------------------------- heartbeats of a client

class HbQueue(Sink):
    pass


def heartbeat(c, bounded):
    C, H = mod('client'), mod('core.heartbeat')
    vol = {'state': C.ClientState.RUNNING, 'reads': 0}
    class Volatile(C.ClientHeartbeat):
        """client_state may be set to FINISHED by another thread between any two reads."""
        @property
        def client_state(self):
            if vol['state'] is C.ClientState.RUNNING and c.choose([('still running', None), ('finished meanwhile', None)], 'state') == 1:
                vol['state'] = C.ClientState.FINISHED
            return vol['state']
        @client_state.setter
        def client_state(self, v):
            vol['state'] = v
    class HB(H.Heartbeat):
        def pack(self):
            return Wrapped('heartbeat', self)
    patch(C, Heartbeat=HB)
    q = Sink('heartbeat', full=bounded, snap=lambda x: x)
    rate = mkval('real', 'heartrate')
    c.assume(rate.z >= 0)
    m = Volatile(queue=Module(heartbeat=q), heartrate=rate)
    return C, H, m, q, vol, rate


def queue_server(c):
    """QueueServer.start: which queues are bounded (decides whether a heartbeat can be refused)."""
    Q = mod('core.queue')
    made = []
    class JQ:
        def __init__(self, maxsize=0):
            self.maxsize = maxsize
            made.append(self)
    size = mkval('int', 'queuesize')
    base = Q.QueueServer.__mro__[2]
    reg = {}
    with patched((Q, 'JoinableQueue', JQ), (Q.BaseManager, 'register', classmethod(lambda cls, n, callable=None, **k: reg.__setitem__(n, callable))),
                 (Q.BaseManager, 'start', lambda self, *a, **k: reg.__setitem__('started', True)), (Q.BaseManager, '__init__', lambda self, *a, **k: None)):
        cfg = Module(host=Opaque('host'), port=Opaque('port'), auth='key', size=size)
        s = Q.QueueServer(config=cfg)
        r = s.__enter__()
        c.prove('QueueServer: entering starts the server', r is s and reg.get('started') is True)
        names = ('scheduled', 'completed', 'heartbeat', 'confirmed')
        qs = [getattr(s, n) for n in names]
        c.prove('QueueServer: four distinct queues', len({id(q) for q in qs}) == 4 and all(isinstance(q, JQ) for q in qs))
        for n, q in zip(names, qs):
            f = reg.get(f'_get_{n}')
            c.prove(f'QueueServer: clients reach the {n} queue under its own name', f is not None and f() is q)
        c.prove('QueueServer: tasks and results are bounded by the configured size, notices are unbounded',
                conj([veq(s.scheduled.maxsize, size), veq(s.completed.maxsize, size), veq(s.heartbeat.maxsize, 0), veq(s.confirmed.maxsize, 0)]))
    regs = []
    class Proxy:
        pass
    with patched((Q.BaseManager, 'register', classmethod(lambda cls, n, callable=None, **k: (regs.append(n), setattr(cls, n, lambda self, n=n: prox.setdefault(n, Opaque(n))))[0])),
                 (Q.BaseManager, 'connect', lambda self, *a, **k: regs.append('connect')), (Q.BaseManager, '__init__', lambda self, *a, **k: None)):
        prox = {}
        k = Q.QueueClient(config=cfg)
        try:
            r = k.__enter__()
            c.prove('QueueClient: connects, then reaches every queue by its own name',
                    r is k and 'connect' in regs and all(getattr(k, n) is prox.get(f'_get_{n}') for n in names))
        finally:
            for n in list(vars(Q.QueueClient)):
                if n.startswith('_get_'):
                    delattr(Q.QueueClient, n)


HVARS = ['queue', 'heartrate', 'previous', 'no_wait', 'client_state']


def beat_new(c):
    C, H, m, q, vol, rate = heartbeat(c, False)
    t0 = clock_read()
    r = step_until(m, ['SUBMIT', 'WAIT'])
    c.prove('heartbeat: starts by announcing itself', r == 'SUBMIT' and not q.trace.segs)


def beat_submit(c):
    C, H, m, q, vol, rate = heartbeat(c, False)
    at_state(m, 'SUBMIT')
    if c.choose([('running', None), ('finished', None)], 'client') == 1:
        vol['state'] = C.ClientState.FINISHED
    t0 = clock_read()
    r = step_until(m, ['SUBMIT', 'WAIT'])
    t1 = clock_read()
    declare(m, HVARS)
    c.cover(f'heartbeat submit -> {r}')
    sent = [s.v.value for s in q.trace.segs]
    c.prove('heartbeat: one heartbeat is sent', len(sent) == 1)
    hb = sent[0]
    I = mod('data.model')
    c.prove('heartbeat: carries this client\'s id and host', conj([veq(hb.uuid, H.INSTANCE), veq(hb.host, H.HOSTNAME)]))
    c.prove('heartbeat: carries the time at which it is sent, with offset', z3.And(hb.time.z >= t0, hb.time.z <= t1) if hb.time.aware else False)
    c.prove('heartbeat: ends exactly when the finished state has been announced', (r == 'HALT') == (hb.state is C.ClientState.FINISHED))
    c.prove('heartbeat: the finished state is announced only after it was set', hb.state is not C.ClientState.FINISHED or vol['state'] is C.ClientState.FINISHED)
    c.prove('heartbeat: otherwise waits for the next one', r in ('HALT', 'WAIT'))


def beat_wait(c):
    C, H, m, q, vol, rate = heartbeat(c, False)
    at_state(m, 'WAIT')
    m.previous = p = clock_point()
    done = c.choose([('go on', None), ('told to finish', None)], 'no_wait') == 1
    m.no_wait = done
    if done:
        vol['state'] = C.ClientState.FINISHED
    t0 = clock_read()
    r = step_until(m, ['SUBMIT', 'WAIT'])
    t1 = clock_read()
    declare(m, HVARS)
    c.cover(f'heartbeat wait -> {r}')
    c.prove('heartbeat: nothing is sent and nothing ends while waiting', not q.trace.segs and r in ('SUBMIT', 'WAIT'))
    slept = c.env.get('sleeps', [])
    if done:
        c.prove('heartbeat: told to finish, it announces that at once', r == 'SUBMIT' and not slept)
    else:
        c.prove('heartbeat: a new heartbeat is sent once the period has elapsed', z3.Implies(t0 - p.z >= rate.z, z3.BoolVal(r == 'SUBMIT')))
        c.prove('heartbeat: pauses at most one second at a time', conj([z3.And(toreal(znum(s)) <= 1, toreal(znum(s)) >= 0) for s in slept] + [len(slept) <= 1]))
        if r == 'SUBMIT':
            c.prove('heartbeat: the period is counted from the previous one', z3.And(m.previous.z >= t0, m.previous.z <= t1))
        else:
            c.prove('heartbeat: waiting does not move the period', veq(m.previous, p))


def beat_thread(c):
    C = mod('client')
    q, rate = Opaque('queue'), mkval('real', 'heartrate')
    t = C.ClientHeartbeatThread(queue=q, heartrate=rate)
    c.prove('ClientHeartbeatThread: queue and period reach the machine', t.machine.queue is q and veq(t.machine.heartrate, SymDelta(rate.z)) is not False)
    c.prove('ClientHeartbeatThread: period', veq(t.machine.heartrate, SymDelta(rate.z)))
    c.prove('ClientHeartbeatThread: the client is running at first', t.machine.client_state is C.ClientState.RUNNING and not t.machine.no_wait)
    t.signal_finished()
    c.prove('ClientHeartbeatThread: announces the end at once when told so', t.machine.client_state is C.ClientState.FINISHED and bool(t.machine.no_wait))
    u = C.ClientHeartbeatThread(queue=q, heartrate=rate)
    c.prove('ClientHeartbeatThread: one client does not end another', u.machine.client_state is C.ClientState.RUNNING and not u.machine.no_wait)
    log = []
    u.machine = Recorder('machine', log)
    u.run_with_exceptions()
    c.prove('ClientHeartbeatThread: runs its machine', len(where(log, 'machine.run')) == 1)


# ------------------------------------------------------------------------------------------ server

def server(c):
    S = mod('server')
    log = []
    F = {n: Factory(n, log) for n in ('SchedulerThread', 'SubmitThread', 'LiveSubmitThread', 'ConfirmThread', 'ReceiverThread', 'HeartMonitorThread', 'QueueServer')}
    enabled = c.choose([('database', None), ('no database', None)], 'config') == 0
    mem = c.choose([('db', None), ('in memory', None)], 'mode') == 1
    noconf = c.choose([('confirm', None), ('no confirm', None)], 'confirm') == 1
    src = c.choose([('source', None), ('no source', None)], 'source') == 0
    with patched(*[(S, n, f) for n, f in F.items()], (S, 'DATABASE_ENABLED', enabled)):
        t = S.ServerThread(source=['x'] if src else None, in_memory=mem, no_confirm=noconf, max_retries=0)
        db = enabled and not mem
        log.clear()
        t.run_with_exceptions()
    c.cover('server ran to the end')
    subm = 'SubmitThread' if db else 'LiveSubmitThread'
    chain = ['QueueServer.__enter__']
    if src:
        chain += [f'{subm}.start', f'{subm}.join']
    else:
        c.prove('server: no submission without a source', not where(log, f'{subm}.start') and not F[subm].made)
    before = list(chain)
    if db:
        c.prove('server: scheduling is started before it is awaited, and awaited after submission', ordered(log, 'QueueServer.__enter__', 'SchedulerThread.start', 'SchedulerThread.join')
                and ordered(log, *before, 'SchedulerThread.join'))
        before.append('SchedulerThread.join')
    for sig in ('HeartMonitorThread.signal_clients', 'HeartMonitorThread.signal_scheduler_done'):
        c.prove(f'server: {sig.split(".")[1]} after submission and scheduling and before waiting for the clients to be gone', ordered(log, *before, sig, 'HeartMonitorThread.join'))
    for name, ch, start in [('results', 'completed', 'ReceiverThread')] + ([] if noconf else [('confirmations', 'confirmed', 'ConfirmThread')]):
        c.prove(f'server: the collection of {name} is ended only when all clients are gone, then awaited before the queues close',
                ordered(log, 'HeartMonitorThread.join', (f'QueueServer.{ch}.put', (None,)), f'{start}.join', 'QueueServer.__exit__'))
        c.prove(f'server: the collection of {name} is started with the queues open', ordered(log, 'QueueServer.__enter__', f'{start}.start', f'{start}.join'))
    c.prove('server: the clients are monitored from the start', ordered(log, 'QueueServer.__enter__', 'HeartMonitorThread.start', 'HeartMonitorThread.join'))
    c.prove('server: exactly one end marker per stage', len(where(log, 'QueueServer.completed.put')) == 1 and len(where(log, 'QueueServer.confirmed.put')) == (0 if noconf else 1)
            and not where(log, 'QueueServer.scheduled.put') and not where(log, 'QueueServer.heartbeat.put'))
    c.prove('server: every component is awaited without time limit', all(not e[1] and not any(v is not None for v in e[2].values()) for e in log if e[0].endswith('.join')))
    c.prove('server: no component is stopped by force', not any(e[0].endswith('.stop') for e in log))
    c.prove('server: the queues are closed last', bool(log) and [e[0] for e in log if not e[0].endswith('=')][-1] == 'QueueServer.__exit__')


def run(rep):
    rep.run('ClientThread', client_thread, covers=['client ran to the end'])
    rep.run('ClientHeartbeat.new', beat_new)
    rep.run('ClientHeartbeat.SUBMIT', beat_submit, covers=['heartbeat submit -> HALT', 'heartbeat submit -> WAIT'])
    rep.run('ClientHeartbeat.WAIT', beat_wait, covers=['heartbeat wait -> SUBMIT', 'heartbeat wait -> WAIT'])
    rep.run('ClientHeartbeatThread', beat_thread)
    rep.run('ServerThread', server, covers=['server ran to the end'])
    rep.run('QueueServer/QueueClient', queue_server)
    rep.run('SubmitThread', c03.submit_thread)
    rep.run('LiveSubmitThread', c04.live_thread)
