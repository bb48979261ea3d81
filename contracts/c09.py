"""C09 (and the selection part of C10): Task.next on the real queries."""
from pyvc.models import *
from pyvc.core import z3
from pyvc.dbmodel import *
from pyvc import dbmodel as D
from contracts import dbspec as P


class Uuid(Sym):
    def __init__(self, name):
        self.name = name
    def vc_str(self):
        return SymStr(z3.String(self.name))
    @property
    def hex(self):
        raise Unsupported('uuid.hex')


class RealTask(type(TaskRec)):
    """Everything but construction is the real class's (columns, queries, helpers)."""
    def __getattr__(cls, a):
        if a.startswith('__'):
            raise AttributeError(a)
        return getattr(NewTask.__dict__['real'], a)


class NewTask(TaskRec, metaclass=RealTask):
    real = None
    """A task created by the code: unset columns are NULL."""
    def __init__(self, **kw):
        bad = set(kw) - set(TaskRec.schema)
        if bad:
            raise TypeError(f'{bad} is an invalid keyword argument for Task')
        name = ctx().fresh_name('newtask')
        vals = {k: kw.get(k) for k in TaskRec.schema}
        super().__init__(name, **vals)
        self.__dict__['_init'] = {}
        self.__dict__['_new'] = vals


def same_tag(a, b):
    if a is b or veq(a, b) is True:
        return True
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Opaque) and type(y) is dict and not y:
            return z3.Not(z3.Bool(f'nonempty({x.name})'))
    return False


def not_again(session, q, kind):
    """Rows added before a query is issued may be among its results: none of them may qualify
    (otherwise the same task would be in the batch twice); neither may rows of an earlier selection."""
    c = session.c
    if kind == 'all' and q.table == 'task':
        for s in session.added._norm().segs:
            for cond, vs in ([(z3.BoolVal(True), [s.gen])] if isinstance(s, Var) else [(z3.BoolVal(True), [s.v])] if isinstance(s, Unit) else s.branches):
                for r in vs:
                    c.prove('next: a task just created for this batch is not selected again', z3.Implies(cond, z3.Not(q.pred(Now(r)))))
        for q0 in session.queries[:-1]:
            if q0.kind == 'all' and q0.table == 'task':
                row = Row(c.fresh_name('anyrow'))
                r2 = Now(q0.var.gen, row)
                inv = z3.Implies(z3.Not(row.null('completion_time')), z3.Not(row.null('schedule_time')))     # completed tasks have been scheduled
                c.prove('next: a task already selected for this batch is not selected again', z3.Implies(z3.And(inv, q0.pred(row)), z3.Not(q.pred(r2))))
    return NotImplemented


class Now:
    """Present contents of a record as a row (columns written so far replaced)."""
    table = 'task'
    def __init__(self, rec, base=None):
        self.rec, self.base = rec, base
    def __getitem__(self, col):
        if self.base is not None and col not in self.rec.written():
            return self.base[col]
        n, z = raw(self.rec, col)
        if z is None and not z3.is_true(n) and col != 'tag':
            raise Unsupported(f'column {col}')
        return n, z
    def null(self, col): return self[col][0]
    def val(self, col): return self[col][1]


class World:
    def __init__(self, c):
        M = self.M = mod('data.model')
        self.c = c
        self.s = D.Session(c, not_again)
        self.iid, self.host = SymStr(z3.String('INSTANCE')), SymStr(z3.String('HOSTNAME'))
        self.patches = patched((M, 'Session', self.s), (M, 'INSTANCE', self.iid), (M, 'HOSTNAME', self.host),
                               (M, 'gen_uuid', lambda: Uuid(c.fresh_name('uuid'))),
                               (M.Task, 'ensure_valid_tag', staticmethod(lambda tag: None)))
    def __enter__(self):
        self.patches.__enter__()
        self.Task = self.M.Task
        NewTask.real = self.Task
        self.M.__dict__['Task'] = NewTask
        return self
    def __exit__(self, *a):
        self.M.__dict__['Task'] = self.Task
        self.patches.__exit__(*a)


def prefixlen(segs):
    return SymSeq(list(segs)).zlen() if segs else z3.IntVal(0)


def run_next(c):
    limit, attempts = mkval('int', 'limit'), mkval('int', 'attempts')
    c.assume(limit.z >= 1)
    c.assume(attempts.z >= 1)
    eager = c.choose([('not eager', None), ('eager', None)], 'mode') == 1
    w = World(c)
    with w:
        out = as_seq(w.Task.next(limit=limit, attempts=attempts, eager=eager))
    return w, limit, attempts, eager, out


def classify(c, w, attempts):
    """Which query selects never-scheduled tasks, which one failed tasks."""
    new, failed = [], []
    for q in w.s.queries:
        if q.kind != 'all' or q.table != 'task':
            raise Unsupported(f'{q.kind} query in Task.next')
        row = Row(c.fresh_name('anyrow'))
        p = q.pred(row)
        if not c.feasible(p != P.never_scheduled(row)):
            new.append(q)
        elif not c.feasible(p != P.retryable(attempts.z)(row)):
            failed.append(q)
        else:
            # neither: the obligation that names what is wrong
            s = c.feasible(z3.And(p, z3.Not(P.never_scheduled(row)), z3.Not(P.retryable(attempts.z)(row))))
            c.prove('next: selects only never-scheduled tasks and failed tasks to be retried', not s)
            c.prove('next: a selection leaves no eligible task behind while the batch has room', False)
    return new, failed


def body(c):
    w, limit, attempts, eager, out = run_next(c)
    new, failed = classify(c, w, attempts)
    if len(new) > 1 or len(failed) > 1:
        raise Unsupported('several queries of one kind')
    segs = out._norm().segs
    from pyvc.values import _base
    names = {q.var.name: q for q in new + failed}
    part = {'new': [], 'failed': []}
    order = []
    for s in segs:
        b = _base(s)
        q = names.get(b.name) if b is not None else None
        if q is None:
            raise Unsupported('batch element of unknown origin')
        k = 'new' if q in new else 'failed'
        part[k].append(s)
        order.append(k)
    c.cover(f'next eager={eager} {"+".join(order) or "empty"}')
    c.prove('next: at most the requested number of tasks', out.zlen() <= limit.z)
    # never-scheduled tasks
    qn = new[0] if new else None
    qf = failed[0] if failed else None
    nlen = qn.var.n if qn is not None else z3.IntVal(0)
    flen = qf.var.n if qf is not None else z3.IntVal(0)
    if qn is not None:
        c.prove('next: never-scheduled tasks are taken in order of submission time', qn.order[:1] == (('submit_time', False),))
        c.prove('next: every selected never-scheduled task is in the batch, once, in order', len(part['new']) <= 1 and seq_eq(SymSeq(part['new']), SymSeq([qn.var])) if part['new'] else nlen == 0)
        lim = znum(qn.lim) if qn.lim is not None else None
        c.prove('next: never-scheduled tasks are only left behind when the batch is full', z3.BoolVal(True) if lim is None else z3.Or(nlen < lim, out.zlen() >= limit.z))
    else:
        c.prove('next: never-scheduled tasks are only left behind when the batch is full', out.zlen() >= limit.z)
    left_new = z3.BoolVal(True) if qn is None else (z3.BoolVal(False) if qn.lim is None else nlen >= znum(qn.lim))
    left_failed = z3.BoolVal(True) if qf is None else (z3.BoolVal(False) if qf.lim is None else flen >= znum(qf.lim))
    if not eager:
        c.prove('next: by default no retry is selected while a never-scheduled task is left behind', z3.Implies(flen > 0, z3.Not(left_new)))
    else:
        c.prove('next: in eager mode no never-scheduled task is selected while a retry is left behind', z3.Implies(nlen > 0, z3.Not(left_failed)))
    c.prove('next: retries are only left behind when the batch is full or no retry is allowed', z3.Implies(left_failed, z3.Or(out.zlen() >= limit.z, attempts.z <= 1)))
    # what is written
    t0 = c.env.get('clock_reads', [])
    for k, ss in part.items():
        for s in ss:
            recs = [s.gen] if isinstance(s, Var) else [v for _, vs in s.branches for v in vs]
            for r in recs:
                c.prove(f'next: every selected task is marked with this server\'s id and host', conj([veq(r.server_id, w.iid), veq(r.server_host, w.host)]))
                st = r.schedule_time
                c.prove('next: every selected task is marked with the scheduling time', isinstance(st, SymTime) and st.aware)
                extra = set(r.written()) - {'server_id', 'server_host', 'schedule_time'} - (set(NewTask.schema) if isinstance(r, NewTask) else set())
                c.prove('next: nothing else of a selected task is changed', not extra)
    # persisted before use
    c.prove('next: everything is committed before the batch is used', (not segs and not w.s.pending()) or (not w.s.pending() and committed(w.s, out)))
    if qf is not None:
        c.prove('next: the failed tasks themselves are not marked scheduled', not qf.var.gen.written())
    c.prove('next: no other task is marked scheduled', not marks(w.s.updated))
    c.prove('next: only retries are added', seq_eq(w.s.added, SymSeq(part['failed'])) if part['failed'] else seq_eq(w.s.added, []))
    return w, attempts, part, qf


def committed(s, out):
    """Every task of the batch was under management at the last commit, with its present contents."""
    segs = out._norm().segs
    if s.committed is None:
        return False
    for g in segs:
        ok = False
        for p in s.committed:
            for h in p._norm().segs:
                if seq_eq(frozen(SymSeq([g])), SymSeq([h])) is True:
                    ok = True
        if not ok:
            return False
    return True


def marks(updates):
    """Does any update touch scheduling columns?"""
    for s in updates._norm().segs:
        ds = [s.v] if isinstance(s, Unit) else [s.gen] if isinstance(s, Var) else [v for _, vs in s.branches for v in vs]
        for d in ds:
            if type(d) is not dict:
                raise Unsupported('update mapping')
            if set(d) & {'server_id', 'server_host', 'schedule_time'}:
                return True
    return False


def next_body(c):
    body(c)


def add_all(c):
    """Entity.add_all stores and commits; a failure is rolled back and reported."""
    w = World(c)
    with w:
        v = Var('items', lambda n: TaskRec(n))
        items = SymSeq([v])
        fail = c.choose([('ok', None), ('fails', None)], 'commit') == 1
        if fail:
            def bad():
                w.s.log.append(('failed',))
                raise RuntimeError('database')
            w.s.commit = bad
        try:
            w.Task.add_all(items)
            raised = False
        except RuntimeError:
            raised = True
        c.prove('add_all: a failing commit is reported', raised == fail)
        c.prove('add_all: exactly the items are added', seq_eq(w.s.added, SymSeq([v])))
        if fail:
            c.prove('add_all: a failing commit is rolled back', w.s.log[-1] == ('rollback',))
        else:
            c.prove('add_all: committed', w.s.log[-1] == ('commit',))


def update_all(c):
    w = World(c)
    with w:
        v = Var('changes', lambda n: Opaque(n))
        ch = SymSeq([v])
        w.Task.update_all(ch)
        nonempty = c.branch(v.n > 0)
        c.prove('update_all: exactly the changes are applied', seq_eq(w.s.updated, SymSeq([v]) if nonempty else []))
        c.prove('update_all: the changes are committed', not w.s.pending())


def run(rep):
    mod('data.model')
    rep.run('Task.next', next_body, covers=['next eager=False new+failed', 'next eager=True failed+new', 'next eager=False new'])
    rep.run('Entity.add_all', add_all)
    rep.run('Entity.update_all', update_all)
