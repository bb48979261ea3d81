"""C13: clients are registered, kept and evicted exactly by their heartbeats."""
from pyvc.models import *
from pyvc.core import z3
from pyvc.values import SymBool, SymDelta
from pyvc.maps import SymMap
from pyvc import dbmodel as D
from contracts import c14

VARS = ['queue', 'last_check', 'beats', 'in_memory', 'no_confirm', 'wait_check', 'evict_after', 'startup_phase', 'scheduler_done', 'should_signal', 'signaled', 'latest_heartbeat']


from contracts.c12 import Data


class HB(Record):
    schema = {'uuid': 'str', 'host': 'str', 'time': 'time', 'state': 'state'}
    def _lazy(self, a):
        if a == 'state':
            raise Unsupported('state of a stored heartbeat')
        return super()._lazy(a)


class Orphans:
    """Task.revert_orphaned(client): returns exactly that client's unfinished tasks (C14)."""
    def __init__(self):
        self.trace = SymSeq([])
    def revert_orphaned(self, client_id):
        self.trace.append(client_id)
    def __getattr__(self, a):
        raise Unsupported(f'Task.{a}')


class World:
    def __init__(self, c):
        from sqlalchemy.exc import NoResultFound
        self.c = c
        self.S, self.M, self.H = mod('server'), mod('data.model'), mod('core.heartbeat')
        CS = self.H.ClientState
        self.known = None
        def handler(s, q, kind):
            if kind == 'count':
                return NotImplemented
            if kind not in ('one', 'one_or_none', 'first') or q.table != 'client':
                raise Unsupported(f'{kind} query of {q.table}')
            # the row with the identifier asked for, if any
            rec = D.ClientRec(c.fresh_name('client'))
            row = D.Row(rec._name, 'client')
            if c.choose([('row', None), ('no row', None)], 'query') == 1:
                self.known = False
                if kind == 'one':
                    raise NoResultFound()
                return None
            c.solver.add(q.pred(row))
            if not c.feasible():
                raise PathEnd('no such row')
            # the query must be about exactly this identifier
            any_ = D.Row(c.fresh_name('anyrow'), 'client')
            self.asked = (q, row)
            self.known = True
            return rec
        self.s = D.Session(c, handler)
        self.orphans = Orphans()
        self.got = []
        def mk(n):
            return Data(n)
        self.source = Source('heartbeat', mk, on_get=lambda x: self.got.append(x))
        self.sent = Sink('scheduled')
        world = self
        class Heartbeat:
            """Heartbeat.unpack(data) is the heartbeat the client sent (C02)."""
            @staticmethod
            def unpack(data):
                if not isinstance(data, Opaque):
                    raise Unsupported('Heartbeat.unpack')
                hb = HB(f'{data.name}.hb')
                k = c.choose([('running', None), ('finished', None)], 'state')
                hb.__dict__['_vals']['state'] = CS.FINISHED if k else CS.RUNNING
                c.assume(hb.uuid.z != z3.StringVal(''))
                world.hb, world.finished = hb, bool(k)
                return hb
            def __getattr__(self, a):
                raise Unsupported(f'Heartbeat.{a}')
        self.patches = patched((self.M, 'Session', self.s), (self.S, 'Heartbeat', Heartbeat), (self.S, 'Task', self.orphans))
        self.mem = SymBool(z3.Bool('in_memory'))
        self.noconf = SymBool(z3.Bool('no_confirm'))
        self.evict = mkval('int', 'evict_after')
    def __enter__(self):
        self.patches.__enter__()
        return self
    def __exit__(self, *a):
        self.patches.__exit__(*a)

    def machine(self):
        return self.S.HeartMonitor(queue=Module(heartbeat=self.source, scheduled=self.sent), evict_after=self.evict, in_memory=self.mem, no_confirm=self.noconf)

    def arbitrary(self, m):
        """Any state reachable at NEXT or SWITCH."""
        c = self.c
        v = Var('beats', HB)
        self.var = v
        def stored(hb):
            if 'state' in hb.__dict__['_vals']:
                c.aux('only running clients are kept', hb.state is self.H.ClientState.RUNNING)
        beats = SymMap('uuid', [v], stored)
        last = mkval('time', 'last_check')
        c.assume(last.z <= clock_read())
        B = lambda n: SymBool(z3.Bool(n))
        havoc(m, beats=beats, last_check=last, startup_phase=B('startup'), scheduler_done=B('scheduler_done'), should_signal=B('should_signal'))
        self.told = None
        if c.choose([('not signalled', None), ('signalled', None)], 'so far') == 1:
            self.told = SymMap('uuid', [Var('told', HB)])
        havoc(m, signaled=self.told)
        if c.choose([('first', None), ('later', None)], 'heartbeats so far') == 1:
            old = HB('stale_hb')
            old.__dict__['_vals']['state'] = list(self.H.ClientState)[c.choose([('running', None), ('finished', None)], 'stale state')]
            havoc(m, latest_heartbeat=old)
        # no client is known before anything was received
        c.assume(z3.Implies(m.startup_phase.z, v.n == 0))
        self.beats = beats
        return m

    def untouched(self, name, m, before):
        c = self.c
        c.prove(name, seq_eq(m.beats.seq if isinstance(m.beats, SymMap) else SymSeq(elems=list(m.beats.values())), before))

    def nodb(self, name):
        self.c.prove(name, conj([seq_eq(self.s.updated, []), seq_eq(self.s.added, []), seq_eq(self.orphans.trace, [])]))


def init(c):
    w = World(c)
    with w:
        try:
            m = w.machine()
        except RuntimeError:
            c.prove('monitor: an eviction period of ten seconds or more is accepted', SymBool(w.evict.z < 10))
            c.cover('too short')
            return
        c.assume(w.evict.z >= 10)           # shorter periods: behaviour unspecified
        r = step_until(m, ['NEXT', 'SWITCH'])
        declare(m, VARS)
        c.prove('monitor.init: nothing received, sent or recorded', conj([not w.got, seq_eq(w.sent.trace, [])]))
        w.nodb('monitor.init: the database is not used')
        c.prove('monitor.init: no client is connected', not m.beats)
        c.prove('monitor.init: does not stop', r != 'HALT')
        c.prove('monitor.init: eviction period as configured', SymBool(zsec(m.evict_after) == z3.ToReal(w.evict.z)))
        c.aux('monitor.init: before the first heartbeat', m.startup_phase is True)
        c.aux('monitor.init: nobody has been told', m.signaled is None)
        c.cover('init')


def zsec(d):
    return znum(d.total_seconds())


def next_(c):
    w = World(c)
    with w:
        c.assume(w.evict.z >= 10)
        m = w.machine()
        step_until(m, ['NEXT', 'SWITCH'])
        w.arbitrary(m)
        at_state(m, 'NEXT')
        before = SymSeq(list(w.beats.seq.segs))
        told0 = w.told.copy() if w.told is not None else None
        t0 = clock_read()
        r = step_until(m, ['NEXT', 'SWITCH'])
        declare(m, VARS)
        kind = c.env.get('last_heartbeat')
        def told_as(name, want):
            c.aux(name, want is None or seq_eq(m.signaled.seq, want.seq))
        if m.state.name == 'NEXT' and kind != 'empty':
            raise Unsupported('a heartbeat is followed by another poll at once')
        c.prove('monitor: stops exactly on the end marker when polled', (r == 'HALT') == (kind == 'end'))
        c.aux('whether the clients have been told is remembered', m.signaled is w.told)
        c.prove('monitor: nothing is returned to the pool on a poll', seq_eq(w.orphans.trace, []))
        after = m.beats
        if kind != 'item':
            c.prove('monitor: no disconnect notice is sent without a heartbeat', seq_eq(w.sent.trace, []))
            told_as('monitor: nobody is told without a heartbeat', told0)
            w.nodb('monitor: nothing is recorded without a heartbeat')
            w.untouched('monitor: nobody is connected or disconnected without a heartbeat', m, before)
            c.cover(f'poll {kind}')
            if kind == 'empty':
                c.aux('start-up lasts until the first heartbeat', bool_of(veq(m.startup_phase, SymBool(z3.Bool('startup')))))
            return
        c.aux('start-up ends with the first heartbeat', m.startup_phase is False)
        hb, k = w.hb, w.hb.uuid
        # what was known before
        old = SymMap('uuid', before._norm().segs)
        was = old.vc_contains(k)
        mem = c.branch(w.mem.z, 'in_memory')
        new = not w.finished and not was
        one = new and told0 is not None and not told0.vc_contains(k)
        c.prove('monitor: a client that connects after the others were told to disconnect is told as well, once', seq_eq(w.sent.trace, [None] if one else []))
        if one:
            told0[k] = hb
        told_as('monitor: it is remembered who was told', told0)
        c.cover('late client told' if one else 'nobody told')
        if w.finished:
            c.prove('monitor: a client that finished is no longer connected', not after.vc_contains(k))
            old.pop(k, None)
            w.untouched('monitor: other clients stay as they are', m, old.seq)
            c.prove('monitor: a finished client is not added', seq_eq(w.s.added, []))
            if mem:
                w.nodb('monitor: the database is not used when disabled')
            else:
                check_updates(c, w, 'finished', was, k, t0)
            c.cover(f'finished {"known" if was else "unknown"}')
        else:
            c.prove('monitor: a client with a running heartbeat is connected', after.vc_contains(k))
            c.prove('monitor: the most recent heartbeat is kept', after.get(k) is hb)
            old[k] = hb
            w.untouched('monitor: other clients stay as they are', m, old.seq)
            if mem:
                w.nodb('monitor: the database is not used when disabled')
            elif was:
                w.nodb('monitor: a connected client is not registered again')
                c.cover('running known')
            else:
                check_registered(c, w, hb, k)
                c.cover('running re-registered' if w.known else 'running new')
        c.prove('monitor: what was recorded is committed', not w.s.pending())


def check_updates(c, w, what, expected, k, t0):
    s = w.s
    if not expected:
        c.prove('monitor: nothing is recorded for a client that was not connected', seq_eq(s.updated, []))
        return
    ok = s.updated.concrete and len(s.updated) == 1 and isinstance(s.updated[0], dict)
    c.prove('monitor: exactly one change is recorded for a client that leaves', ok)
    d = s.updated[0]
    c.prove('monitor: the change concerns that client', veq(d.get('id'), k))
    t = d.get('disconnected_at')
    c.prove('monitor: the moment of disconnection is recorded', isinstance(t, SymTime) and SymBool(z3.And(t.z >= t0, t.z <= c.now_last)))
    c.prove('monitor: nothing else is changed', set(d) <= {'id', 'disconnected_at', 'evicted'} and d.get('evicted', False) is False)


def check_registered(c, w, hb, k):
    s = w.s
    c.prove('monitor: a client not connected is looked up once', w.known is not None and len(s.queries) == 1)
    q = s.queries[0]
    row = D.Row(c.fresh_name('anyclient'), 'client')
    c.prove('monitor: the look-up is by identifier', q.pred(row) == (row.val('id') == k.z))
    if w.known:
        c.prove('monitor: a client known to the database is not added twice', seq_eq(s.added, []))
        ok = s.updated.concrete and len(s.updated) == 1 and isinstance(s.updated[0], dict)
        c.prove('monitor: a client known to the database is marked once', ok)
        d = s.updated[0]
        c.prove('monitor: the client marked is the one that reported', veq(d.get('id'), k))
        c.prove('monitor: it is marked connected again', 'disconnected_at' in d and d['disconnected_at'] is None and d.get('evicted') is False)
        c.prove('monitor: nothing else about it is changed', set(d) == {'id', 'disconnected_at', 'evicted'})
    else:
        c.prove('monitor: nothing is changed for a new client', seq_eq(s.updated, []))
        ok = s.added.concrete and len(s.added) == 1 and isinstance(s.added[0], w.M.Client)
        c.prove('monitor: a new client is added once', ok)
        x = s.added[0]
        c.prove('monitor: the new client has the identity and host it reported', conj([veq(x.id, k), veq(x.host, hb.host)]))
        c.prove('monitor: it is connected since its first heartbeat', veq(x.connected_at, hb.time))
        c.prove('monitor: it is recorded as connected to this server', x.disconnected_at is None and x.evicted is False and veq(x.server_id, w.M.INSTANCE) and veq(x.server_host, w.M.HOSTNAME))


def switch(c):
    w = World(c)
    with w:
        c.assume(w.evict.z >= 10)
        m = w.machine()
        step_until(m, ['NEXT', 'SWITCH'])
        w.arbitrary(m)
        wait = m.wait_check
        at_state(m, 'SWITCH')
        before = SymSeq(list(w.beats.seq.segs))
        told0 = SymSeq(list(w.told.seq.segs)) if w.told is not None else None
        var = w.var
        t0 = clock_read()
        last0 = m.last_check.z
        startup, done, sig = m.startup_phase.z, m.scheduler_done.z, m.should_signal.z
        steps = []
        r = step_until(m, ['NEXT', 'SWITCH'], on_step=lambda a, b: steps.append(b.name))
        t1 = c.now_last
        declare(m, VARS)
        c.prove('monitor: no heartbeat is taken in between', not w.got)
        checked = 'CHECK' in steps
        signalled = 'SIGNAL' in steps
        c.cover(f'switch -> {"signal" if signalled else "check" if checked else r}')
        n = var.n
        c.prove('monitor: stops only when scheduling is over and no client is connected', True if r != 'HALT' else SymBool(z3.And(done, n == 0)))
        c.prove('monitor: stops once scheduling is over, no client is connected and nobody is to be told',
                True if r == 'HALT' or signalled else SymBool(z3.Or(startup, sig, z3.Not(done), n > 0)))
        # notices
        notes = w.sent.trace.zlen()
        if signalled:
            c.prove('monitor: notices are sent only when told to', SymBool(sig))
            want = SymSeq([Map(var, [(z3.BoolVal(True), [None])])])
            c.prove('monitor: exactly one disconnect notice per connected client', seq_eq(w.sent.trace, want))
            c.prove('monitor: the notices are not sent again', m.should_signal is False)
            c.aux('it is remembered which clients were told', isinstance(m.signaled, SymMap) and seq_eq(m.signaled.seq, before))
        else:
            c.prove('monitor: no notice is sent otherwise', seq_eq(w.sent.trace, []))
            c.aux('nobody was told', m.signaled is w.told and (w.told is None or seq_eq(w.told.seq, told0)))
            c.prove('monitor: a request to signal is not forgotten', bool_of(veq(m.should_signal, SymBool(sig))))
            if r == 'HALT':
                pass
            elif not checked:
                c.prove('monitor: notices are sent when told to, once a client has reported', SymBool(z3.Or(z3.Not(sig), startup)))
        if not checked:
            w.nodb('monitor: nothing is recorded without a check')
            w.untouched('monitor: nobody is evicted without a check', m, before)
            if not signalled and r != 'HALT':
                c.prove('monitor: a check takes place at least once per eviction period', SymBool(z3.Or(startup, t1 - last0 <= zsec(m.evict_after))))
            return
        c.prove('monitor: the time of the check is remembered', SymBool(z3.And(m.last_check.z >= t0, m.last_check.z <= t1)))
        eviction(c, w, m, var, t0, t1)


def branches(seq, var):
    """Per-branch values of an effect trace over var (or nothing)."""
    segs = seq._norm().segs
    if not segs:
        return None
    if len(segs) != 1 or not isinstance(segs[0], (Map, Var)):
        raise Unsupported('effects of a check')
    s = segs[0]
    if isinstance(s, Var):
        return [(z3.BoolVal(True), [s.gen])] if s is var else _bad()
    return s.branches if s.var is var else _bad()


def _bad():
    raise Unsupported('effects over another sequence')


def eviction(c, w, m, var, t0, t1):
    g = var.gen
    c.assume(var.n > 0) if c.choose([('some clients', None), ('no client', var.n == 0)], 'clients') == 0 else None
    if c.branch(var.n == 0):
        return
    kept = branches(m.beats.seq, var)
    ups, orph = branches(w.s.updated, var), branches(w.orphans.trace, var)
    c.prove('monitor: a check adds no client', seq_eq(w.s.added, []))
    n = len(next(x for x in (kept, ups, orph, [(z3.BoolVal(True), [])]) if x is not None))
    period = zsec(m.evict_after)
    hb_time = g.time.z
    for i in range(n):
        conds = [b[i][0] for b in (kept, ups, orph) if b is not None and i < len(b)]
        out = kept is None or i < len(kept) and kept[i][1] == []
        u = ups[i][1] if ups is not None else []
        o = orph[i][1] if orph is not None else []
        here = z3.And(*conds) if conds else z3.BoolVal(True)
        c.solver.push()
        try:
            c.solver.add(here)
            if not c.feasible():
                continue
            if not out:
                c.prove('monitor: every client whose last heartbeat is older than the eviction period is evicted', z3.Implies(here, t0 - hb_time <= period))
                c.prove('monitor: nothing is recorded for a client that is kept', z3.Implies(here, z3.BoolVal(not u and not o)))
                c.prove('monitor: a kept client keeps its heartbeat', kept[i][1][0] is g)
                c.cover('kept')
                continue
            c.prove('monitor: only clients whose last heartbeat is older than the eviction period are evicted', z3.Implies(here, t1 - hb_time > period))
            mem, noconf = w.mem.z, w.noconf.z
            if u:
                d = u[0]
                c.prove('monitor: an eviction is recorded once, in the database in use', z3.Implies(here, z3.And(z3.BoolVal(len(u) == 1 and isinstance(d, dict)), z3.Not(mem))))
                c.prove('monitor: the evicted client is recorded as evicted', z3.Implies(here, zb(conj([veq(d.get('id'), g.uuid), d.get('evicted') is True, isinstance(d.get('disconnected_at'), SymTime)]))))
                c.prove('monitor: nothing else about it is changed', set(d) == {'id', 'evicted', 'disconnected_at'})
                c.cover('evicted, recorded')
            else:
                c.prove('monitor: every eviction is recorded', z3.Implies(here, mem))
                c.cover('evicted, no database')
            if o:
                c.prove('monitor: unfinished tasks are returned only with confirmations and a database in use', z3.Implies(here, z3.And(z3.Not(mem), z3.Not(noconf))))
                c.prove('monitor: exactly the evicted client\'s tasks are returned, once', z3.Implies(here, zb(conj([len(o) == 1, veq(o[0], g.uuid)]))))
                c.cover('evicted, tasks returned')
            else:
                c.prove('monitor: the tasks of every evicted client are returned (confirmations and database in use)', z3.Implies(here, z3.Or(mem, noconf)))
        finally:
            c.solver.pop()


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def updates(c):
    """Client.update / add: one change, committed."""
    w = World(c)
    with w:
        k = mkval('str', 'k')
        v = mkval('time', 'v')
        w.M.Client.update(k, disconnected_at=v, evicted=True)
        c.prove('Client.update: exactly the given change, committed', conj([seq_eq(w.s.updated, [{'id': k, 'disconnected_at': v, 'evicted': True}]), not w.s.pending(), seq_eq(w.s.added, [])]))


def f_hm(queue, evict_after=None, in_memory=False, no_confirm=False): ...


def threads(c):
    S = mod('server')
    log = []
    F = Factory('HeartMonitor', log)
    with patched((S, 'HeartMonitor', F)):
        q, mem, nc = Opaque('queue'), Opaque('in_memory'), Opaque('no_confirm')
        t = S.HeartMonitorThread(queue=q, evict_after=77, in_memory=mem, no_confirm=nc)
    a, k, mach = F.made[0]
    kw = bind(f_hm, a, k)
    c.prove('HeartMonitorThread: options reach the monitor', len(F.made) == 1 and kw['queue'] is q and kw['in_memory'] is mem and kw['no_confirm'] is nc and kw['evict_after'] == 77)
    class M:
        should_signal = False
        scheduler_done = False
    t.machine = M()
    t.signal_clients()
    c.prove('signal_clients: asks to signal', t.machine.should_signal is True and t.machine.scheduler_done is False)
    t.machine = M()
    t.signal_scheduler_done()
    c.prove('signal_scheduler_done: tells that scheduling is over', t.machine.scheduler_done is True and t.machine.should_signal is False)
    log = []
    t.machine = Recorder('machine', log)
    t.run_with_exceptions()
    c.prove('HeartMonitorThread: runs the monitor', len(where(log, 'machine.run')) == 1)


def server(c):
    S = mod('server')
    log = []
    F = {n: Factory(n, log) for n in ('SchedulerThread', 'SubmitThread', 'LiveSubmitThread', 'ConfirmThread', 'ReceiverThread', 'HeartMonitorThread', 'QueueServer')}
    enabled = c.choose([('database', None), ('no database', None)], 'config') == 0
    mem = c.choose([('db', None), ('in memory', None)], 'mode') == 1
    noconf = c.choose([('confirm', None), ('no confirm', None)], 'confirm') == 1
    evict = Opaque('evict_after')
    with patched(*[(S, n, f) for n, f in F.items()], (S, 'DATABASE_ENABLED', enabled)):
        S.ServerThread(source=None, in_memory=mem, no_confirm=noconf, max_retries=0, evict_after=evict)
    a, k, _ = F['HeartMonitorThread'].made[0]
    kw = bind(f_hm, a, k)
    c.prove('ServerThread: the monitor gets the queue, the eviction period, confirmation mode, and the database unless disabled',
            kw['queue'] is F['QueueServer'].made[0][2] and kw['in_memory'] is (mem or not enabled) and kw['no_confirm'] is noconf and kw['evict_after'] is evict)


def run(rep):
    mod('server')
    rep.run('HeartMonitor.init', init, covers=['init', 'too short'])
    rep.run('HeartMonitor.NEXT', next_, covers=['poll empty', 'poll end', 'running known', 'running new', 'running re-registered', 'finished known', 'finished unknown', 'late client told'])
    rep.run('HeartMonitor.SWITCH', switch, covers=['switch -> signal', 'switch -> check', 'switch -> NEXT', 'switch -> HALT', 'kept', 'evicted, recorded', 'evicted, tasks returned', 'evicted, no database'])
    rep.run('Task.select_orphaned', c14.select('orphaned'))
    rep.run('Task.revert_orphaned', c14.recover('orphaned'), covers=['revert_orphaned done', 'revert_orphaned batch'])
    rep.run('Task.revert_all', c14.revert_all)
    rep.run('Client.update', updates)
    rep.run('HeartMonitorThread', threads)
    rep.run('ServerThread', server)
