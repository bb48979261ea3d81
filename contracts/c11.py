"""C11: Scheduler posts every selected batch exactly once and stops only when done."""
from pyvc.models import *
from pyvc.core import z3
from pyvc.values import SymBool, SymInt
from contracts import c14

VARS = ['queue', 'bundle', 'tasks', 'bundlesize', 'attempts', 'eager', 'forever_mode', 'restart_mode', 'startup_phase', 'source_pending']


class World:
    """The database as seen by the scheduler: every query happens at a later moment, between which
    other processes submit tasks and clients finish tasks.  Assumed: nobody deletes tasks or resets
    finished ones behind the scheduler's back; only the scheduler creates retries."""
    def __init__(self, c):
        self.c = c
        self.S = mod('server')
        self.sig = Signals()
        self.flat = SymSeq([])            # encoded tasks posted
        self.selected = SymSeq([])        # encoded tasks selected (as they were when selected)
        self.moments = []
        self.selections = 0
        self.started = False              # a selection has been made in this run
        self.posted = BundleSink('scheduled', self.flat, 'scheduler', deferred=True)
        B = lambda n: SymBool(z3.Bool(n))
        self.size, self.attempts = mkval('int', 'bundlesize'), mkval('int', 'attempts')
        self.eager, self.forever, self.restart = B('eager'), B('forever'), B('restart')
        c.assume(self.size.z >= 1)
        c.assume(self.attempts.z >= 1)
        patch(self.S, check_signal=self.sig, Task=self)
        world = self
        class Watched(self.S.Scheduler):
            """source_pending is written by the parent thread: true until submission is over."""
            @property
            def source_pending(self):
                    return SymBool(world.tick()['pending'])
            @source_pending.setter
            def source_pending(self, v):
                raise Unsupported('scheduler writes source_pending')
        cls = Watched if hasattr(self.S.Scheduler, 'source_pending') else self.S.Scheduler
        self.m = cls(queue=Module(scheduled=self.posted), bundlesize=self.size, attempts=self.attempts, eager=self.eager,
                     forever_mode=self.forever, restart_mode=self.restart)
        self.tick()

    def tick(self):
        c = self.c
        n = lambda s: z3.Int(c.fresh_name(s))
        cur = {'count': n('count'), 'rem': n('remaining'), 'retry': n('to_retry'), 'int': n('interrupted'),
               'pending': z3.Bool(c.fresh_name('source_pending'))}
        s = c.solver
        s.add(cur['rem'] >= 0, cur['rem'] <= cur['count'], cur['retry'] >= 0, cur['retry'] <= cur['count'], cur['int'] >= 0, cur['int'] <= cur['rem'])
        if self.moments:
            old = self.moments[-1]
            s.add(cur['count'] >= old['count'], z3.Implies(cur['pending'], old['pending']))
            if not old.get('selected'):
                s.add(cur['retry'] >= old['retry'])
            if old.get('reverted'):
                cur['reverted'] = True
                s.add(cur['int'] == 0) if not self.started else None
            elif not self.started:
                s.add(cur['int'] == old['int'])
        self.moments.append(cur)
        clock_read()
        return cur

    # -- contracts of the database operations (C09, C10, C14, C27 prove them) --------------------
    def count(self):
        return SymInt(self.tick()['count'])
    def count_remaining(self):
        return SymInt(self.tick()['rem'])
    def count_interrupted(self):
        return SymInt(self.tick()['int'])
    def revert_interrupted(self):
        cur = self.tick()
        z = dict(cur)
        z['int'] = z3.IntVal(0)
        z['reverted'] = True
        self.moments.append(z)
    def select_failed(self, *a, **k):
        kw = bind(self.S_select_failed, a, k)
        cur = self.tick()
        att = znum(kw['attempts'])
        known = not self.c.feasible(att != self.attempts.z)
        if self.c.choose([('some', None), ('none', None)], 'select_failed') == 0:
            if known:
                self.c.assume(cur['retry'] > 0)
            v = seqvar('failed', lambda n: TaskRec(n))
            self.c.assume(v.zlen() > 0)
            return v
        if known and not self.c.feasible(znum(kw['limit']) < 1):
            self.c.assume(cur['retry'] == 0)
        return SymSeq([])
    @staticmethod
    def S_select_failed(attempts, limit): ...
    @staticmethod
    def S_next(limit, attempts=1, eager=False): ...
    def next(self, *a, **k):
        c = self.c
        kw = bind(self.S_next, a, k)
        c.prove('scheduler: batches are selected with the configured bundle size, attempts and mode',
                conj([veq(kw['limit'], self.size), veq(kw['attempts'], self.attempts), veq(kw['eager'], self.eager)]))
        cur = self.tick()
        if not self.started:
            c.prove('scheduler: previously interrupted tasks are returned to the pool before anything is scheduled', z3.BoolVal(bool(cur.get('reverted'))) if cur.get('reverted') else cur['int'] == 0)
        self.started = True
        c.prove('scheduler: a batch is posted completely before the next one is selected', seq_eq(self.flat, self.selected))
        self.posted.settle()
        self.selections += 1
        if c.choose([('none', None), ('tasks', None)], 'next') == 0:
            c.assume(cur['retry'] == 0)
            c.env['last_next'] = 'none'
            return SymSeq([])
        c.env['last_next'] = 'tasks'
        cur['selected'] = True
        v = seqvar('batch', lambda n: TaskRec(n))
        c.assume(v.zlen() > 0)
        c.assume(v.zlen() <= self.size.z)
        self.selected.extend(packs(v))
        return v
    def __getattr__(self, a):
        raise Unsupported(f'Task.{a}')


def init(c):
    w = World(c)
    r = step_until(w.m, ['LOAD'])
    declare(w.m, VARS)
    c.prove('scheduler.init: reaches LOAD before selecting or posting anything', r == 'LOAD' and not w.selections and not w.posted.bundles)
    cur = w.moments[-1]
    c.prove('scheduler.init: previously interrupted tasks have been returned to the pool', z3.Or(z3.BoolVal(bool(cur.get('reverted'))), cur['int'] == 0))
    c.aux('scheduler.init: start-up phase unless restarting', w.m.startup_phase == z3.Not(w.restart.z) if isinstance(w.m.startup_phase, bool) else w.m.startup_phase.z == z3.Not(w.restart.z))


def load_step(c):
    w = World(c)
    m = w.m
    step_until(m, ['LOAD'])
    D = seqvar('posted', lambda n: Opaque(n))
    w.flat._set(D.segs)
    w.selected._set(D.segs)
    w.started = True if c.choose([('first', None), ('later', None)], 'iteration') else False
    sched = z3.Bool('scheduled_before')
    if not w.started:
        c.assume(z3.Not(sched))
    havoc(m, startup_phase=SymBool(z3.Not(z3.Or(w.restart.z, sched))), bundle=SymSeq([Var('stale_bundle', lambda k: Opaque(k))]))
    m.tasks = SymSeq([Var('stale_tasks', lambda k: TaskRec(k))])
    n0 = len(w.moments)
    r = step_until(m, ['LOAD'], ghost=lambda: {'flat': SymSeq(w.flat.segs)})
    declare(m, VARS)
    sel = c.env.get('last_next')
    c.cover(f'scheduler {sel} -> {r}')
    w.posted.settle()
    c.prove('scheduler: every selected batch is posted exactly once, complete, in order, encoded as selected', seq_eq(w.flat, w.selected))
    if sel == 'tasks':
        c.prove('scheduler: a selected batch is posted as one bundle', w.posted.bundles == 1)
        c.prove('scheduler: goes on after posting a batch', r == 'LOAD')
    if r == 'HALT':
        if not any(s is not None for s in w.sig.seen):
            done = [z3.And(w.moments[-1]['count'] > 0, k['rem'] == 0, k['retry'] == 0, z3.Not(k['pending'])) for k in w.moments[n0:]]
            c.prove('scheduler: never stops by itself when running forever', z3.Not(w.forever.z))
            c.prove('scheduler: stops only after something was scheduled by this run, unless restarting', z3.Or(w.restart.z, sched))
            c.prove('scheduler: stops only at a moment when there are tasks, all finished, none to be retried and none still being submitted', z3.Or(*done))
    else:
        sp = m.startup_phase
        sp = z3.BoolVal(sp) if isinstance(sp, bool) else sp.z
        c.aux('scheduler: start-up phase ends with the first batch', sp == z3.Not(z3.Or(w.restart.z, sched, z3.BoolVal(sel == 'tasks'))))


def thread(c):
    S = mod('server')
    q, vals = Opaque('queue'), {k: Opaque(k) for k in ('bundlesize', 'attempts', 'eager', 'forever_mode')}
    restart = SymBool(z3.Bool('restart'))
    t = S.SchedulerThread(queue=q, restart_mode=restart, **vals)
    m = t.machine
    c.prove('SchedulerThread: options reach the scheduler', m.queue is q and all(getattr(m, k) is v for k, v in vals.items()) and exact(m.restart_mode, restart) is not False)
    log = []
    t.machine = Recorder('machine', log)
    t.run_with_exceptions()
    c.prove('SchedulerThread: runs its machine', len(where(log, 'machine.run')) == 1)


def server(c):
    """ServerThread hands its options to the scheduler and tells it when submission is over."""
    S = mod('server')
    log = []
    F = {n: Factory(n, log) for n in ('SchedulerThread', 'SubmitThread', 'LiveSubmitThread', 'ConfirmThread', 'ReceiverThread', 'HeartMonitorThread', 'QueueServer')}
    with patched(*[(S, n, f) for n, f in F.items()], (S, 'DATABASE_ENABLED', True)):
        v = {k: Opaque(k) for k in ('bundlesize', 'eager', 'forever_mode', 'restart_mode')}
        retries = mkval('int', 'max_retries')
        src = iter(()) if c.choose([('source', None), ('no source', None)], 'source') == 0 else None
        t = S.ServerThread(source=src, max_retries=retries, **v)
        a, k, sched = F['SchedulerThread'].made[0]
        kw = bind(F_sched, a, k)
        c.prove('ServerThread: scheduler options', conj([z3.BoolVal(all(kw[n] is v[n] for n in v)), veq(kw['attempts'], retries + 1), z3.BoolVal(kw['queue'] is F['QueueServer'].made[0][2])]))
        log.clear()
        t.run_with_exceptions()
        pend = where(log, 'SchedulerThread.signal_source')
        vals = [dict(zip(('pending',), log[i][1])) | log[i][2] for i in pend]
        if src is None:
            c.prove('ServerThread: without a source the scheduler waits for none', all(x['pending'] is False for x in vals))
        else:
            st = where(log, 'SchedulerThread.start')
            jn = where(log, 'SubmitThread.join')
            c.prove('ServerThread: the scheduler knows that tasks are being submitted from its start until the submitter ended',
                    len(pend) == 2 and len(st) == 1 and len(jn) == 1 and [x['pending'] for x in vals] == [True, False] and pend[0] < st[0] and jn[0] < pend[1])


def F_sched(queue, bundlesize=None, attempts=None, eager=None, forever_mode=False, restart_mode=False): ...


def run(rep):
    rep.run('Scheduler.init', init)
    rep.run('Scheduler.LOAD', load_step, covers=['scheduler none -> LOAD', 'scheduler tasks -> LOAD', 'scheduler none -> HALT', 'scheduler None -> HALT'])
    rep.run('Task.select_interrupted', c14.select('interrupted'))
    rep.run('Task.revert_interrupted', c14.recover('interrupted'), covers=['revert_interrupted done', 'revert_interrupted batch'])
    rep.run('Task.count_interrupted', c14.count)
    rep.run('Task.revert_all', c14.revert_all)
    rep.run('SchedulerThread', thread)
    rep.run('ServerThread', server)
