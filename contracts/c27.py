"""C27: a cancelled task is never selected, retried, recovered or waited for; only a revert revives it."""
from pyvc.models import *
from pyvc.core import z3
from pyvc.dbmodel import *
from contracts import dbspec as P
from contracts import c09, c22
from contracts.c14 import CLEARED


def columns(d, base):
    """Row after an update mapping."""
    out = {}
    for k, v in d.items():
        if k == 'id':
            continue
        out[k] = (z3.BoolVal(True), base.val(k)) if v is None else (z3.BoolVal(False), z3term(v))
    return over(out, base=base)


def cancelled(c):
    """An arbitrary task, neither running nor finished, after cancel_all."""
    w = c09.World(c)
    with w:
        v = Var('ids', lambda n: mkval('str', n))
        c.assume(v.n > 0)
        w.Task.cancel_all(SymSeq([v]))
    segs = w.s.updated._norm().segs
    ok = len(segs) == 1 and isinstance(segs[0], Map) and segs[0].var.name == v.name and all(len(vs) == 1 and type(vs[0]) is dict and veq(vs[0].get('id'), v.gen) is True for _, vs in segs[0].branches)
    c.prove('cancel: every named task is updated, once, and no other', ok)
    c.prove('cancel: committed', not w.s.pending() and seq_eq(w.s.added, []))
    d = segs[0].branches[0][1][0]
    c.prove('cancel: identity, arguments, submission, retry bookkeeping and tags are kept', not set(d) & {'args', 'submit_id', 'submit_time', 'submit_host', 'attempt', 'retried', 'previous_id', 'next_id', 'tag'})
    row = Row('unstarted')
    c.assume(row.null('start_time'))
    c.assume(row.null('completion_time'))
    c.assume(row.null('exit_status'))
    return columns(d, row), row


OPS = {
    'select_new': lambda T: T.select_new(limit=mkval('int', 'limit')),
    'select_failed': lambda T: T.select_failed(attempts=mkval('int', 'attempts'), limit=mkval('int', 'limit')),
    'select_interrupted': lambda T: T.select_interrupted(mkval('int', 'limit')),
    'select_orphaned': lambda T: T.select_orphaned(SymStr(z3.String('client')), mkval('int', 'limit')),
    'count_remaining': lambda T: T.count_remaining(),
    'count_interrupted': lambda T: T.count_interrupted(),
}
WHAT = {'select_new': 'never selected for scheduling', 'select_failed': 'never retried', 'select_interrupted': 'never returned to the pool by restart recovery',
        'select_orphaned': 'never returned to the pool by eviction recovery', 'count_remaining': 'never counted as unfinished work', 'count_interrupted': 'never counted as interrupted'}


def op(name):
    def body(c):
        r, row = cancelled(c)
        w = c09.World(c)
        with w:
            OPS[name](w.Task)
        c.prove(f'{name}: looks at the database', bool(w.s.queries))
        for q in w.s.queries:
            c.prove(f'a cancelled task is {WHAT[name]}', z3.Not(q.pred(r)))
    return body


def whole(which):
    """All queries of next / revert_* exclude it, all writes go to selected rows."""
    def body(c):
        r, row = cancelled(c)
        w = c09.World(c)
        attempts, limit = mkval('int', 'attempts'), mkval('int', 'limit')
        c.assume(limit.z >= 1)
        c.assume(attempts.z >= 1)
        from pyvc import runtime
        def loop(test, body_):
            r = body_() if test() else runtime.BREAK
            if r is None:
                raise PathEnd('one iteration')
            return None if r is runtime.BREAK else r
        class Any(dict):
            def get(self, k, d=None):
                return loop
        with w, patched((runtime, 'LOOPS', Any())):
            try:
                if which == 'next':
                    w.Task.next(limit=limit, attempts=attempts, eager=c.choose([('not eager', None), ('eager', None)], 'mode') == 1)
                elif which == 'interrupted':
                    w.Task.revert_interrupted()
                else:
                    w.Task.revert_orphaned(SymStr(z3.String('client')))
            finally:
                for q in w.s.queries:
                    c.prove(f'{"next" if which == "next" else "revert_" + which}: no selection contains a cancelled task', z3.Not(q.pred(r)))
        for s in w.s.updated._norm().segs:
            b = getattr(s, 'var', s if isinstance(s, Var) else None)
            c.prove('only selected tasks are updated', b is not None and any(b.name == q.var.name for q in w.s.queries if q.kind == 'all'))
    return body


def revived(c):
    """An explicit revert makes it schedulable again."""
    r, row = cancelled(c)
    w = c09.World(c)
    with w:
        v = Var('ids2', lambda n: mkval('str', n))
        c.assume(v.n > 0)
        w.Task.revert_all(SymSeq([v]))
        segs = w.s.updated._norm().segs
        if len(segs) != 1 or not isinstance(segs[0], Map):
            raise Unsupported('revert mapping')
        d = segs[0].branches[0][1][0]
        back = columns(d, r)
        w.Task.select_new(limit=mkval('int', 'limit'))
        c.prove('revert: a reverted task is schedulable again', w.s.queries[-1].pred(back))
        w.Task.count_remaining()
        c.prove('revert: a reverted task counts as unfinished again', w.s.queries[-1].pred(back))


def run(rep):
    mod('data.model')
    for n in OPS:
        rep.run(f'cancelled task: Task.{n}', op(n))
    for n in ('next', 'interrupted', 'orphaned'):
        rep.run(f'cancelled task: {n}', whole(n))
    rep.run('revert of a cancelled task', revived)
    # the same through the command: what is written is what cancel_all and revert write (C22)
    T = mod('task')
    for m in ('cancel', 'revert'):
        rep.run(f'TaskUpdateApp.update_tasks ({m})', c22.unlimited(T, m), covers=['no change', 'fields only', 'tags'])
        rep.run(f'TaskUpdateApp.update_tasks ({m}, limit)', c22.limited(T, m), covers=['no change', '0 tasks', '2 tasks', 'tags'])
