"""C14: restart and eviction return exactly the interrupted tasks to the pool."""
from pyvc.models import *
from pyvc import runtime
from pyvc.core import z3
from pyvc.dbmodel import *
from contracts import dbspec as P
from contracts import c09

CLEARED = ['schedule_time', 'server_host', 'server_id', 'client_host', 'client_id', 'command', 'start_time', 'completion_time', 'exit_status', 'outpath', 'errpath', 'waited', 'duration']
KEPT = ['id', 'args', 'submit_id', 'submit_time', 'submit_host', 'attempt', 'retried', 'previous_id', 'next_id', 'tag']


def mapping_ok(d, idz):
    """The update mapping clears exactly what the scheduling server or client recorded."""
    return type(d) is dict and set(d) == set(CLEARED) | {'id'} and all(d[k] is None for k in CLEARED) and veq(d['id'], idz)


def revert_all(c):
    w = c09.World(c)
    with w:
        v = Var('ids', lambda n: mkval('str', n))
        w.Task.revert_all(SymSeq([v]))
        want = SymSeq([Map(v, [(z3.BoolVal(True), [{'id': v.gen, **{k: None for k in CLEARED}}])])])
        c.prove('revert: clears exactly what the server or client recorded, for every id once', seq_eq(w.s.updated, want) if c.branch(v.n > 0) else seq_eq(w.s.updated, []))
        c.prove('revert: committed', not w.s.pending())
        c.prove('revert: adds nothing', seq_eq(w.s.added, []))


def select(which):
    def body(c):
        limit, client = mkval('int', 'limit'), SymStr(z3.String('client'))
        w = c09.World(c)
        with w:
            out = w.Task.select_interrupted(limit) if which == 'interrupted' else w.Task.select_orphaned(client, limit)
            q = w.s.queries[0]
            spec = P.interrupted if which == 'interrupted' else P.orphaned(client.z)
            equivalent(c, f'select_{which}: exactly the {which} tasks', q, spec)
            c.prove(f'select_{which}: returns what the query returns', len(w.s.queries) == 1 and seq_eq(as_seq(out), SymSeq([q.var])))
            c.prove(f'select_{which}: at most the limit', q.lim is limit)
    return body


def recover(which):
    """revert_interrupted / revert_orphaned: reverts batch after batch until nothing is left."""
    name = f'revert_{which}'
    def body(c):
        client = SymStr(z3.String('client'))
        spec = P.interrupted if which == 'interrupted' else P.orphaned(client.z)
        w = c09.World(c)
        seen = {'loops': 0}
        def loop(test, body_):
            seen['loops'] += 1
            if seen['loops'] > 1:
                raise Unsupported('second loop')
            # arbitrary iteration
            n0 = len(w.s.queries)
            u0 = w.s.updated.zlen()
            def unwritten():
                c.prove(f'{name}: stopping writes nothing', seq_eq(w.s.updated, []) and seq_eq(w.s.added, []))
            if not test():
                check_query(n0)
                unwritten()
                c.cover(f'{name} done')
                return None
            r = body_()
            check_query(n0)
            if r is runtime.BREAK:       # the decision to stop is taken inside the body
                q = w.s.queries[n0]
                c.prove(f'{name}: stops only when the look found nothing', SymBool(q.var.n == 0))
                unwritten()
                c.cover(f'{name} done')
                return None
            if r is not None:
                raise Unsupported('early exit from the recovery loop')
            q = w.s.queries[n0]
            g = q.var.gen
            want = SymSeq([Map(q.var, [(z3.BoolVal(True), [{'id': g.id, **{k: None for k in CLEARED}}])])])
            c.prove(f'{name}: every selected task is returned to the pool, and no other', seq_eq(w.s.updated, want))
            c.prove(f'{name}: committed before the next selection', not w.s.pending())
            c.prove(f'{name}: nothing else is written', not g.written() and seq_eq(w.s.added, []))
            # measure: a reverted task is not selected again
            cleared = over({k: (z3.BoolVal(True), Row(g._name).val(k)) for k in CLEARED}, base=Row(g._name))
            c.prove(f'{name}: a returned task is not selected again (the loop ends)', z3.Not(q.pred(cleared)))
            c.cover(f'{name} batch')
            raise PathEnd('iteration done')
        def check_query(n0):
            qs = w.s.queries[n0:]
            c.prove(f'{name}: looks for remaining tasks before it stops', len(qs) == 1 and qs[0].kind == 'all')
            equivalent(c, f'{name}: selects exactly the {which} tasks', qs[0], spec)
            lim = qs[0].lim
            c.prove(f'{name}: every look may find tasks', True if lim is None else SymBool(znum(lim) >= 1))
        runtime.LOOPS.clear()
        handler = {}
        class Any(dict):
            def get(self, k, d=None):
                return loop
        with w, patched((runtime, 'LOOPS', Any())):
            w.Task.revert_interrupted() if which == 'interrupted' else w.Task.revert_orphaned(client)
        if not seen['loops']:
            raise Unsupported('no loop')
        c.prove(f'{name}: stops only when nothing is left', True)
    return body


def lemma(c):
    """A recovered task is indistinguishable from a never-scheduled one."""
    from pyvc.models import TaskRec
    c.prove('recovery: cleared and kept columns are all columns', set(CLEARED) | set(KEPT) == set(TaskRec.schema) and not set(CLEARED) & set(KEPT))
    M = mod('data.model')
    c.prove('recovery: the table has no further columns', set(M.Task.__table__.columns.keys()) == set(CLEARED) | set(KEPT))
    row = Row('anyrow')
    cleared = over({k: (z3.BoolVal(True), row.val(k)) for k in CLEARED}, base=row)
    w = c09.World(c)
    with w:
        w.Task.select_new(mkval('int', 'limit'))
        c.prove('recovery: a recovered task is schedulable again', w.s.queries[0].pred(cleared))


def count(c):
    w = c09.World(c)
    with w:
        n = w.Task.count_interrupted()
        q = w.s.queries[0]
        equivalent(c, 'count_interrupted: counts exactly the interrupted tasks', q, P.interrupted)
        c.prove('count_interrupted: the count is returned', len(w.s.queries) == 1 and q.kind == 'count' and q.lim is None and n is q.result)


def run(rep):
    mod('data.model')
    rep.run('Task.revert_all', revert_all)
    rep.run('Task.select_interrupted', select('interrupted'))
    rep.run('Task.select_orphaned', select('orphaned'))
    rep.run('Task.revert_interrupted', recover('interrupted'), covers=['revert_interrupted done', 'revert_interrupted batch'])
    rep.run('Task.revert_orphaned', recover('orphaned'), covers=['revert_orphaned done', 'revert_orphaned batch'])
    rep.run('recovered task', lemma)
    rep.run('Task.count_interrupted', count)
