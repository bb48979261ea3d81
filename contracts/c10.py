"""C10: a retry is created once per failure and only up to the limit."""
from pyvc.models import *
from pyvc.core import z3
from pyvc.dbmodel import *
from contracts import dbspec as P
from contracts.c09 import run_next, classify, NewTask, same_tag
from contracts import c09
from pyvc.values import _base, STRIP


def body(c):
    w, limit, attempts, eager, out = run_next(c)
    for q in w.s.queries:
        if q.kind != 'all' or q.table != 'task':
            raise Unsupported(f'{q.kind} query in Task.next')
    # rows from which a retry is made: those of a query whose rows are all retryable
    added = w.s.added._norm().segs
    upd = w.s.updated._norm().segs
    byname = {q.var.name: q for q in w.s.queries}
    if not added:
        c.prove('next: no task is updated as retried without a retry', not upd)
        c.cover('no retry')
        return
    if len(added) != 1 or not isinstance(added[0], Map):
        raise Unsupported(f'retries {added}')
    g = added[0]
    q = byname.get(_base(g).name)
    if q is None:
        raise Unsupported('retries of unknown origin')
    c.cover('retries')
    row = Row(c.fresh_name('anyrow'))
    c.prove('select_failed: only completed tasks with non-zero exit status, attempts left and no previous retry', z3.Implies(q.pred(row), P.retryable(attempts.z)(row)))
    old = q.var.gen
    for cond, vs in g.branches:
        c.prove('retry: exactly one retry per failed task', len(vs) == 1)
        new = vs[0]
        c.prove('retry: a new task', isinstance(new, NewTask))
        first = new.__dict__['_new']
        # arguments of stored tasks are stripped (Task.new)
        oargs = zstr(old.args)
        c.assume(STRIP(oargs) == oargs)
        with_cond = lambda e: z3.Implies(cond, e if not isinstance(e, bool) else z3.BoolVal(e))
        c.prove('retry: same arguments as the failed task', with_cond(veq(new.args, old.args)))
        c.prove('retry: same tags as the failed task', with_cond(same_tag(new.tag, old.tag)))
        c.prove('retry: attempt number one higher', with_cond(veq(new.attempt, old.attempt + 1)))
        n, a = raw(new, 'attempt')
        c.assume(q.pred(Row(old._name)))
        c.prove('retry: no chain exceeds the allowed number of attempts', with_cond(a <= attempts.z))
        c.prove('retry: refers to the failed task', with_cond(veq(new.previous_id, old.id)))
        c.prove('retry: itself not yet retried, completed or failed', with_cond(conj([veq(new.retried, False), new.next_id is None, new.exit_status is None, new.completion_time is None])))
        c.prove('retry: nothing of the earlier run is carried over', with_cond(conj([getattr(new, k) is None for k in ('client_id', 'client_host', 'command', 'start_time', 'outpath', 'errpath', 'waited', 'duration')])))
        c.prove('retry: submitted by this server', with_cond(conj([veq(new.submit_id, w.iid), veq(new.submit_host, w.host), isinstance(new.submit_time, SymTime)])))
    # the failed record refers to its retry and is marked
    if len(upd) != 1 or not isinstance(upd[0], Map):
        c.prove('retry: every failed task is marked retried and refers to its retry', False)
    u = upd[0]
    c.prove('retry: the marked tasks are the failed tasks', _base(u).name == q.var.name)
    ids = {}
    c.prove('retry: every failed task is marked exactly once', all(len(vs) == 1 and type(vs[0]) is dict for _, vs in u.branches))
    want = Map(q.var, [(cond, [{'id': old.id, 'retried': True, 'next_id': vs[0].id}]) for cond, vs in g.branches])
    c.prove('retry: every failed task is marked retried and refers to its retry', seq_eq(SymSeq([u]), SymSeq([want])))
    c.prove('retry: the bookkeeping is committed', not w.s.pending())
    # after marking it is not retryable again
    marked = over({'retried': (z3.BoolVal(False), z3.BoolVal(True))}, base=Row(old._name))
    for q2 in w.s.queries:
        r2 = marked
        if q2 is q:
            c.prove('retry: a task marked retried is never selected for a retry again', z3.Not(q2.pred(r2)))
    c.prove('retry: every retry is scheduled with this batch', seq_eq(cat(*[SymSeq([s]) for s in out._norm().segs if _base(s) is not None and _base(s).name == q.var.name]), SymSeq([g])) is True)


def select_failed(c):
    """select_failed(attempts, limit) on its own."""
    attempts, limit = mkval('int', 'attempts'), mkval('int', 'limit')
    w = c09.World(c)
    with w:
        out = w.Task.select_failed(attempts=attempts, limit=limit)
        q = w.s.queries[0]
        equivalent(c, 'select_failed: exactly the completed failed tasks with attempts left that were not retried', q, P.retryable(attempts.z))
        c.prove('select_failed: at most the limit', q.lim is limit)
        c.prove('select_failed: returns what the query returns', len(w.s.queries) == 1 and seq_eq(as_seq(out), SymSeq([q.var])))


def run(rep):
    mod('data.model')
    rep.run('Task.next: retries', body, covers=['retries', 'no retry'])
    rep.run('Task.select_failed', select_failed)
    rep.run('Entity.add_all', c09.add_all)
    rep.run('Entity.update_all', c09.update_all)
