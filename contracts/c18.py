"""C18: autoscaling keeps the number of clients within its configured bounds."""
import os
from pyvc.models import *
from pyvc.core import z3
from pyvc.values import SymBool, SymReal, SymInt, SymStr, znum, toreal, Opt, Var, Map, raw
from pyvc import runtime
from pyvc import dbmodel as D
from sqlalchemy.sql.functions import FunctionElement

VARS = ['policy', 'factor', 'period', 'init_size', 'min_size', 'max_size', 'launcher', 'last_check', 'wait_check', 'clients', 'phase']
TASKENV = {'TASK_ENV_MARK': 'of the launched client'}


class Proc(Record):
    """A launched client: `status` is what poll() answers throughout one step (None while it runs)."""
    schema = {'pid': 'int', 'status': '?int'}
    vc_identity = True
    def poll(self):
        return self.status


class World:
    def __init__(self, c):
        self.c = c
        self.R = mod('cluster.remote')
        self.S = mod('cluster.remote')
        self.launched = []
        self.tasks, self.pressures, self.factors = [], [], []
        world = self
        def popen(*a, **kw):
            p = Proc(c.fresh_name('new_client'))
            c.assume(z3.Bool(f'{p._name}.status.null'))
            world.launched.append((a, kw, p, len(world.launched)))
            return p
        class Task:
            @staticmethod
            def count_remaining():
                v = mkval('int', c.fresh_name('tasks_remaining'))
                c.assume(v.z >= 0)
                world.tasks.append(v)
                return v
            @staticmethod
            def task_pressure(factor):
                world.factors.append(factor)
                if c.choose([('unknown', None), ('known', None)], 'pressure') == 0:
                    world.pressures.append(None)
                    return None
                v = SymReal(z3.Real(c.fresh_name('pressure')))
                world.pressures.append(v)
                return v
        class Client:
            @staticmethod
            def count_connected():
                v = mkval('int', c.fresh_name('registered'))
                c.assume(v.z >= 0)
                return v
        self.patches = patched((self.R, 'Popen', popen), (self.R, 'Task', Task), (self.R, 'Client', Client),
                               (self.R, 'load_task_env', lambda: dict(TASKENV)))
        self.dynamic = c.choose([('fixed', None), ('dynamic', None)], 'policy') == 1
        I = lambda n: mkval('int', n)
        self.init, self.min, self.max, self.period = I('init_size'), I('min_size'), I('max_size'), I('period')
        for v in (self.init, self.min, self.max, self.period):
            c.assume(v.z >= 0)
        c.assume(self.max.z >= 1)
        self.factor = SymReal(z3.Real('factor'))
        self.launcher = ['launch', 'it', 'hs', 'client']
    def __enter__(self):
        self.patches.__enter__()
        return self
    def __exit__(self, *a):
        self.patches.__exit__(*a)

    def machine(self):
        return self.R.AutoScaler(list(self.launcher), policy='dynamic' if self.dynamic else 'fixed', factor=self.factor,
                                 period=self.period, init_size=self.init, min_size=self.min, max_size=self.max)

    def parameters(self, m):
        c = self.c
        P = self.R.AutoScalerPolicy
        c.aux('autoscaler keeps its settings', conj([
            m.policy is (P.DYNAMIC if self.dynamic else P.FIXED), veq(m.factor, self.factor), veq(m.period, self.period),
            veq(m.init_size, self.init), veq(m.min_size, self.min), veq(m.max_size, self.max), veq(list(m.launcher), self.launcher),
            SymBool(znum(m.wait_check.total_seconds()) == z3.ToReal(self.period.z))]))

    def arbitrary(self, m):
        """Any state at the head of the INIT or WAIT step."""
        c = self.c
        self.var = Var('clients', Proc)
        self.last = mkval('naive', 'last_check') if False else None
        t = self.R.datetime.now()
        self.last = type(t)(z3.Real('last_check'), t.aware)
        c.assume(self.last.z <= t.z)
        havoc(m, clients=SymSeq([self.var]), last_check=self.last)
        return m

    def size(self, seq):
        return znum(b_len(seq))

    def launches(self, what):
        """Every launched process is exactly the configured client program."""
        for a, kw, p, _ in self.launched:
            b = dict(kw)
            argv = a[0] if a else b.pop('args', None)
            if len(a) > 1:
                raise Unsupported('positional arguments of Popen')
            self.c.prove('autoscaler: a client is launched with the configured command', isinstance(argv, (list, tuple)) and list(argv) == self.launcher and not b.get('shell'))
            self.c.prove('autoscaler: a client is launched in the environment of the cluster', b.get('env') == {**os.environ, **TASKENV})

    def alive(self):
        """The clients still running, in order."""
        v = self.var
        null = z3.Bool(f'{v.gen._name}.status.null')
        return SymSeq([Map(v, [(null, [v.gen]), (z3.Not(null), [])])])


from pyvc.runtime import b_len


def start(c):
    with World(c) as w:
        t0 = clock_read()
        m = w.machine()
        r = step_until(m, ['INIT', 'WAIT'])
        declare(m, VARS)
        c.prove('autoscaler: starts with no client and nothing decided', conj([r == 'INIT', not w.launched, seq_eq(m.clients, [])]))
        c.prove('autoscaler: the first period is counted from the start', SymBool(m.last_check.z >= t0))
        c.aux('autoscaler: initial phase', m.phase is w.R.AutoScalerPhase.INIT)
        w.parameters(m)
        c.cover('start')


def initial(c):
    """INIT step with n clients launched so far, n <= initial size."""
    with World(c) as w:
        m = w.machine()
        step_until(m, ['INIT', 'WAIT'])
        w.arbitrary(m)
        at_state(m, 'INIT')
        n = w.var.n
        c.assume(n <= w.init.z)
        r = step_until(m, ['INIT', 'WAIT'])
        declare(m, VARS)
        more = c.branch(n < w.init.z, 'below initial size')
        c.prove('autoscaler.init: launches the initial number of clients, one at a time', len(w.launched) == (1 if more else 0))
        c.prove('autoscaler.init: all initial clients are launched before anything else', r == ('INIT' if more else 'WAIT'))
        c.prove('autoscaler.init: every launched client is counted', seq_eq(m.clients, SymSeq([w.var] + [Unit(p) for _, _, p, _ in w.launched])))
        P = w.R.AutoScalerPhase
        c.aux('autoscaler: phase', m.phase is (P.INIT if more else P.STEADY))
        c.aux('autoscaler: last check before now', SymBool(m.last_check.z <= clock_read()))
        w.parameters(m)
        w.launches('init')
        c.cover('initial ' + ('launch' if more else 'done'))


def steady(c):
    """WAIT step in the steady phase."""
    with World(c) as w:
        m = w.machine()
        step_until(m, ['INIT', 'WAIT'])
        w.arbitrary(m)
        havoc(m, phase=w.R.AutoScalerPhase.STEADY)
        at_state(m, 'WAIT')
        bound = z3.If(w.init.z > w.min.z, w.init.z, w.min.z)
        bound = z3.If(w.max.z > bound, w.max.z, bound)
        c.assume(z3.Implies(z3.BoolVal(w.dynamic), w.var.n <= bound))
        t0 = clock_read()
        r = step_until(m, ['INIT', 'WAIT'])
        t1 = clock_read()
        declare(m, VARS)
        c.prove('autoscaler: keeps running until told to stop', r == 'WAIT')
        c.aux('autoscaler: stays in the steady phase', m.phase is w.R.AutoScalerPhase.STEADY)
        w.parameters(m)
        w.launches('steady')
        k = len(w.launched)
        c.prove('autoscaler: at most one client is launched at a time', k <= 1)
        period = z3.ToReal(w.period.z)
        checked = z3.Not(m.last_check.z == w.last.z)
        if not w.tasks and not w.pressures and m.last_check is w.last:
            c.prove('autoscaler: no client is launched between checks', k == 0)
            c.prove('autoscaler: clients are not forgotten between checks', seq_eq(m.clients, SymSeq([w.var])))
            c.prove('autoscaler: a check is not put off after the period', SymBool(z3.Not(t0 - w.last.z > period)))
            c.cover('between checks')
            return
        c.prove('autoscaler: a check is made only after a period has elapsed', SymBool(m.last_check.z - w.last.z > period))
        c.prove('autoscaler: the next period is counted from the check', SymBool(z3.And(m.last_check.z >= t0, m.last_check.z <= t1)))
        alive = w.alive()
        n = w.size(alive)
        tasks = w.tasks[-1] if w.tasks else mkval('int', 'tasks_not_read')
        remain = tasks.z > 0
        below = n < w.min.z
        if w.dynamic:
            if w.pressures:
                p = w.pressures[-1]
            else:
                p = SymReal(z3.Real('pressure_not_read')) if c.choose([('unknown', None), ('known', None)], 'unread pressure') else None
            c.prove('autoscaler: pressure uses the configured factor', all(f is w.factor for f in w.factors))
            want = z3.Or(below, z3.And(n == 0, remain)) if p is None else z3.Or(below, z3.And(p.z > 1, n < w.max.z))
            kind = 'unknown pressure' if p is None else 'known pressure'
        else:
            want = z3.Or(below, z3.And(n == 0, remain))
            kind = 'fixed'
        c.prove('autoscaler: a client is added only when one is needed', SymBool(z3.Implies(z3.BoolVal(k > 0), want)))
        c.prove('autoscaler: a client is added when one is needed', SymBool(z3.Implies(want, z3.BoolVal(k > 0))))
        alive.segs = alive.segs + [Unit(p) for _, _, p, _ in w.launched]
        alive._sync()
        c.prove('autoscaler: exactly the clients whose process has exited are forgotten', seq_eq(m.clients, alive))
        if w.dynamic:
            c.prove('autoscaler: a dynamic cluster stays within its largest size', SymBool(w.size(m.clients) <= bound))
        c.cover(f'{kind} {"launch" if k else "pass"}')


def pressure(c):
    """Task.task_pressure: remaining time over factor times average duration, unknown if either is."""
    M = mod('data.model')
    T = M.Task
    R = lambda n: SymReal(z3.Real(n))
    avg = None if c.choose([('unknown', None), ('known', None)], 'average') == 0 else R('avg')
    rate = None if c.choose([('unknown', None), ('known', None)], 'rate') == 0 else R('rate')
    n = mkval('int', 'remaining')
    f = R('factor')
    c.assume(n.z >= 0)
    for v in (avg, rate, f):
        if v is not None:
            c.assume(v.z > 0)
    old = {k: T.__dict__[k] for k in ('avg_duration', 'effective_rate', 'count_remaining')}
    try:
        T.avg_duration = classmethod(lambda cls: avg)
        T.effective_rate = classmethod(lambda cls: rate)
        T.count_remaining = classmethod(lambda cls: n)
        p = T.task_pressure(f)
    finally:
        for k, v in old.items():
            setattr(T, k, v)
    known = avg is not None and rate is not None and c.branch(n.z > 0, 'remaining')
    c.prove('pressure: known exactly when rate, duration and remaining tasks are', (p is not None) == known)
    if known:
        c.prove('pressure: time to completion relative to factor times average duration',
                SymBool(znum(p) == z3.ToReal(n.z) / rate.z / (f.z * avg.z)))
    c.cover(f'pressure {"known" if known else "unknown"}')


class Joint:
    """A task together with the client it is joined with."""
    table = 'task and client'
    def __init__(self, name):
        self.rows = {'task': D.Row(name + '.task', 'task'), 'client': D.Row(name + '.client', 'client')}
    def column(self, table, name):
        if table not in self.rows:
            raise Unsupported(f'column of {table}')
        return self.rows[table][name]


class Distinct:
    """Dictionary of pairs with distinct keys."""
    def __init__(self, pairs):
        self.pairs = pairs
    def values(self):
        return SymSeq(runtime.mapsegs(self.pairs.segs, lambda p: p[1]))
    def keys(self):
        return SymSeq(runtime.mapsegs(self.pairs.segs, lambda p: p[0]))
    def items(self):
        return self.pairs
    def vc_len(self):
        return len_of(self.pairs)
    def __bool__(self):
        return bool(self.pairs)
    def __getattr__(self, a):
        raise Unsupported(f'dict.{a}')


class Total(SymReal):
    """Sum of a sequence of positive numbers: positive unless it is empty."""
    __slots__ = ('seq',)


class Stats:
    """A query of aggregates: what it selects, joins, groups and orders by is recorded; its rows are arbitrary."""
    def __init__(self, w, targets, on=(), filters=(), groups=(), order=(), outer=False):
        self.w, self.targets, self.on, self.filters, self.groups, self.order = w, targets, tuple(on), tuple(filters), tuple(groups), tuple(order)
        self.rows = self.row = None
    def _with(self, **k):
        return Stats(**dict(dict(w=self.w, targets=self.targets, on=self.on, filters=self.filters, groups=self.groups, order=self.order), **k))
    def join(self, target, on=None):
        if on is None or target is not self.w.M.Client:
            raise Unsupported('join')
        return self._with(on=self.on + (on,))
    def filter(self, *conds):
        return self._with(filters=self.filters + conds)
    where = filter
    def filter_by(self, **kw):
        raise Unsupported('filter_by on a join')
    def group_by(self, *cols):
        return self._with(groups=self.groups + tuple(self.column(x) for x in cols))
    def order_by(self, *keys):
        return self._with(order=self.order + tuple(keys))
    @staticmethod
    def column(e):
        if isinstance(e, D.QueryableAttribute):
            e = e.__clause_element__()
        if not hasattr(e, 'table'):
            raise Unsupported('not a column')
        return e.table.name, e.name
    def shape(self, t):
        """('', table, column) or (function, table, column)"""
        if isinstance(t, D.E.Label):
            t = t.element
        if isinstance(t, FunctionElement):
            args = list(t.clauses)
            if len(args) == 0 and t.name == 'count':
                return ('count', '*', '*')
            if len(args) != 1:
                raise Unsupported('function of several arguments')
            if not hasattr(args[0], 'table') and str(args[0]) == '*':
                return (t.name, '*', '*')
            return (t.name, *self.column(args[0]))
        return ('', *self.column(t))
    def pred(self, row):
        return z3.And(*[D.truth(f, row)[0] for f in self.on + self.filters])
    def value(self, name, sh):
        """One column of a result row."""
        fn, table, col = sh
        if fn == 'count':
            v = SymInt(z3.Int(f'{name}.count'))
            self.w.c.solver.add(v.z >= (1 if self.groups else 0))
            return v
        kind = {'start_time': 'time', 'completion_time': 'time', 'schedule_time': 'time', 'duration': 'real', 'client_id': 'str', 'server_id': 'str'}.get(col)
        if kind is None or fn not in ('', 'min', 'max', 'avg', 'sum') or fn in ('avg', 'sum') and kind != 'real':
            raise Unsupported(f'{fn}({col})')
        v = mkval(kind, f'{name}.{fn}.{col}') if kind != 'real' else SymReal(z3.Real(f'{name}.{fn}.{col}'))
        if kind == 'real':
            self.w.c.solver.add(v.z >= 0)
        # null only if the selected tasks may have none: of an empty selection, or of a column that is not required
        row = Joint('selected')
        if self.groups and not self.w.c.feasible(z3.And(self.pred(row), row.column(table, col)[0])):
            return v
        return Opt(z3.Bool(f'{name}.{fn}.{col}.null'), v)
    def _result(self, kind):
        self.kind = kind
        self.w.asked.append(self)
        shapes = [self.shape(t) for t in self.targets]
        if kind == 'all':
            n = f'groups{len(self.w.asked)}'
            self.rows = Var(n, lambda k: tuple(self.value(k, s) for s in shapes))
            return SymSeq([self.rows])
        n = f'row{len(self.w.asked)}'
        if kind == 'first' and self.w.c.choose([('a row', None), ('no row', None)], f'{n}') == 1:
            return None
        if kind == 'one' and self.groups:
            raise Unsupported('one() of groups')
        self.row = tuple(self.value(n, s) for s in shapes)
        return self.row
    def all(self): return self._result('all')
    def first(self): return self._result('first')
    def one(self): return self._result('one')
    def __iter__(self):
        raise Unsupported('iteration over a query')
    def __getattr__(self, a):
        raise Unsupported(f'query.{a}')


class StatsWorld:
    """The database as seen by the statistics of the autoscaler."""
    def __init__(self, c):
        self.c, self.M, self.asked = c, mod('data.model'), []
        self.sums = []
        c.env['dict of'] = self.dict_of
        c.env['sum of'] = self.sum_of
    def query(self, *targets):
        return Stats(self, targets)
    def __getattr__(self, a):
        raise Unsupported(f'session.{a}')
    def dict_of(self, pairs):
        """Keys are distinct when they are the column the rows are grouped by."""
        for q in self.asked:
            if getattr(q, 'rows', None) is None:
                continue
            k = [i for i, t in enumerate(q.targets) if q.shape(t) == ('', *q.groups[0])] if len(q.groups) == 1 else []
            if k and all(isinstance(s, Map) and s.var is q.rows and all(p[0] is q.rows.gen[k[0]] for _, vs in s.branches for p in vs) for s in pairs.segs):
                return Distinct(pairs)
        raise Unsupported('dictionary with keys that may coincide')
    def sum_of(self, seq):
        t = Total(z3.Real(self.c.fresh_name('total')))
        t.seq = frozen(seq)
        pos = True
        for s in seq.segs:
            for cond, vs in (s.branches if isinstance(s, Map) else []):
                for v in vs:
                    pos = pos and not self.c.feasible(z3.And(cond, s.var.n > 0, z3.Not(toreal(znum(v)) > 0)))
        n = seq.zlen()
        self.c.assume(z3.Implies(n == 0, t.z == 0))
        if pos:
            self.c.assume(z3.Implies(n > 0, t.z > 0))
        return t


def joined(q, row):
    """Joined with the client the task is assigned to."""
    return z3.And(z3.Not(row.column('task', 'client_id')[0]), row.column('task', 'client_id')[1] == row.column('client', 'id')[1])


def active(server, row):
    """Task of the current server and of a client that is still connected."""
    return z3.And(z3.Not(row.column('task', 'server_id')[0]), row.column('task', 'server_id')[1] == server.z, row.column('client', 'disconnected_at')[0])


def latest(c):
    """Task.latest_server: the server that scheduled last."""
    w = StatsWorld(c)
    with patched((w.M, 'Session', w)):
        r = w.M.Task.latest_server()
    c.prove('statistics: one query for the current server', len(w.asked) == 1)
    q = w.asked[0]
    row = D.Row('any', 'task')
    q.on or c.prove('statistics: the current server is one that scheduled a task', q.pred(row) == z3.Not(row.null('schedule_time')))
    keys = []
    for k in q.order:
        desc = False
        while isinstance(k, D.E.UnaryExpression):
            if k.modifier not in (D.O.desc_op, D.O.asc_op):
                raise Unsupported('order modifier')
            desc, k = desc != (k.modifier is D.O.desc_op), k.element
        keys.append((q.shape(k), desc))
    sh = [q.shape(t) for t in q.targets]
    if q.on or q.kind != 'first' or ('', 'task', 'server_id') not in sh or len(keys) != 1:
        raise Unsupported('another way to find the current server')
    want = ('max', 'task', 'schedule_time') if q.groups == (('task', 'server_id'),) else ('', 'task', 'schedule_time') if not q.groups else None
    c.prove('statistics: the current server is the one that scheduled last', keys[0] == (want, True), repr(keys))
    row = getattr(q, 'row', None)
    if row is None:
        c.prove('statistics: no current server before anything is scheduled', r is None)
        c.cover('no server')
    else:
        c.prove('statistics: the server found is returned', r is row[sh.index(('', 'task', 'server_id'))])
        c.cover('server')


def statistics(which):
    """Task.effective_rate: sum over the connected clients of completed tasks per second; Task.avg_duration."""
    def body(c):
        w = StatsWorld(c)
        T = w.M.Task
        server = None if c.choose([('server', None), ('no server', None)], 'server') == 1 else SymStr(z3.String('server'))
        if server is not None:
            c.assume(z3.Length(server.z) > 0)
        old = T.__dict__['latest_server']
        try:
            T.latest_server = classmethod(lambda cls: server)
            with patched((w.M, 'Session', w)):
                r = getattr(T, which)()
        finally:
            T.latest_server = old
        if server is None:
            c.prove(f'{which}: unknown without a current server', r is None)
            c.cover('no server')
            return
        c.prove(f'{which}: one query', len(w.asked) == 1)
        q = w.asked[0]
        row = Joint('any')
        sel = z3.And(joined(q, row), active(server, row))
        null = row.column('task', 'completion_time' if which == 'effective_rate' else 'duration')[0]
        if which == 'avg_duration':
            c.prove('average duration: of exactly the tasks of connected clients of the current server', z3.Implies(z3.Not(null), q.pred(row) == sel))
            c.prove('average duration: one average', not q.groups and [q.shape(t) for t in q.targets] == [('avg', 'task', 'duration')] and q.kind in ('one', 'first'))
            v = getattr(q, 'row', (None,))[0]
            if v is None:
                c.prove('average duration: unknown if nothing was completed', r is None)
                return
            known = c.branch(z3.And(z3.Not(v.null), v.v.z != 0), 'known')
            c.prove('average duration: unknown if nothing was completed', (r is not None) == known)
            if known:
                c.prove('average duration: as computed by the database', veq(r, v.v))
            c.cover('known' if known else 'unknown')
            return
        c.prove('rate: of exactly the completed tasks of connected clients of the current server', q.pred(row) == z3.And(sel, z3.Not(null)))
        c.prove('rate: by client', q.groups in ((('task', 'client_id'),), (('client', 'id'),)) and q.kind == 'all')
        sh = [q.shape(t) for t in q.targets]
        first, last = ('min', 'task', 'start_time'), ('max', 'task', 'completion_time')
        if first not in sh or last not in sh or not [s for s in sh if s[0] == 'count']:
            raise Unsupported('other aggregates')
        g = q.rows.gen
        a, b, n = g[sh.index(first)], g[sh.index(last)], g[[s[0] for s in sh].index('count')]
        k = [s for s in sh if s[0] == 'count'][0]
        c.prove('rate: tasks are counted', k[1:] in (('*', '*'), ('task', 'id'), ('task', 'completion_time'), ('task', 'client_id')))
        start, null = (a.v, a.null) if isinstance(a, Opt) else (a, z3.BoolVal(False))
        usable = z3.And(z3.Not(null), b.z > start.z)
        want = SymSeq([Map(q.rows, [(usable, [SymReal(z3.ToReal(n.z) / (b.z - start.z))]), (z3.Not(usable), [])])])
        if r is None:
            c.prove('rate: unknown only if no connected client has completed a task', want.zlen() == 0)
            c.cover('unknown')
            return
        c.prove('rate: the sum over the clients of completed tasks per second', isinstance(r, Total) and seq_eq(r.seq, want), repr(r))
        c.prove('rate: positive when known', z3.Implies(want.zlen() > 0, r.z > 0))
        c.cover('known')
    return body


def policies(c):
    P = mod('cluster.remote').AutoScalerPolicy
    for n in ('fixed', 'Fixed', 'FIXED'):
        c.prove('autoscaler: policy by name', P.from_name(n) is P.FIXED, n)
    for n in ('dynamic', 'DYNAMIC'):
        c.prove('autoscaler: policy by name', P.from_name(n) is P.DYNAMIC, n)
    try:
        P.from_name('other')
        c.prove('autoscaler: an unknown policy is refused', False)
    except RuntimeError:
        pass
    c.cover('policies')


def run(rep):
    rep.run('start', start, covers=['start'])
    rep.run('initial', initial, covers=['initial launch', 'initial done'])
    rep.run('steady', steady, covers=['between checks', 'fixed launch', 'fixed pass', 'known pressure launch', 'known pressure pass', 'unknown pressure launch', 'unknown pressure pass'])
    rep.run('pressure', pressure, covers=['pressure known', 'pressure unknown'])
    rep.run('Task.latest_server', latest, covers=['server', 'no server'])
    rep.run('Task.effective_rate', statistics('effective_rate'), covers=['known', 'unknown', 'no server'])
    rep.run('Task.avg_duration', statistics('avg_duration'), covers=['known', 'unknown', 'no server'])
    rep.run('policies', policies, covers=['policies'])
