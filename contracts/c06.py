"""C06: ClientCollector returns every finished task exactly once."""
from pyvc.models import *
from pyvc.core import z3

VARS = ['queue', 'local', 'tasks', 'bundle', 'bundlesize', 'bundlewait', 'previous_send']


def machine(c, flat, received, arrived=None):
    C = mod('client')
    def on_get(x):
        received.append(Wrapped('pack', x.freeze()))
        if arrived is not None:
            arrived.append(c.now_last)
    q = Source('local', lambda n: TaskRec(n), on_get=on_get)
    out = BundleSink('completed', flat, 'collector')
    size, wait = mkval('int', 'bundlesize'), mkval('int', 'bundlewait')
    c.assume(size.z >= 1)
    m = C.ClientCollector(queue=Module(completed=out), local=q, bundlesize=size, bundlewait=wait)
    return m, q, out, size, wait


def init(c):
    flat, received = SymSeq([]), SymSeq([])
    m, q, out, size, wait = machine(c, flat, received)
    r = step_until(m, ['GET_LOCAL'])
    declare(m, VARS)
    c.prove('collector.init: reaches GET_LOCAL with nothing received, returned or buffered',
            conj([r == 'GET_LOCAL', seq_eq(received, []), seq_eq(flat, []), seq_eq(m.tasks, [])]))
    c.prove('collector.init: the bundle wait starts at or before now', m.previous_send.z <= clock_read())
    c.aux('collector.init: no packed bundle', seq_eq(m.bundle, []))


def step(c):
    """Home state GET_LOCAL: map(pack, received) == returned ++ map(pack, tasks)."""
    T = seqvar('tasks', lambda n: TaskRec(n))
    D = seqvar('returned', lambda n: Opaque(n))
    flat, received = SymSeq(D.segs), cat(D, packs(T))
    arrived = []
    m, q, out, size, wait = machine(c, flat, received, arrived)
    step_until(m, ['GET_LOCAL'])
    last = SymTime(clock_read(), False)         # ghost: time of the previous send (or of the start)
    havoc(m, tasks=T, bundle=SymSeq([]), previous_send=last)
    n0 = T.zlen()
    entry = clock_read()
    r = step_until(m, ['GET_LOCAL'], ghost=lambda: {'flat': SymSeq(flat.segs)})
    declare(m, VARS)
    kind = c.env.get('last_local')
    c.cover(f'collector {kind} -> {r}')
    c.prove('collector: every finished task is returned or buffered, once, in order, with the values it had when it finished',
            seq_eq(received, cat(flat, packs(m.tasks))))
    c.prove('collector: halts exactly on the end marker', (r == 'HALT') == (kind == 'end'))
    if r == 'HALT':
        c.prove('collector: nothing left in the buffer at halt', seq_eq(flat, received))
        return
    c.aux('collector: no packed bundle between iterations', seq_eq(m.bundle, []))
    n = n0 + (1 if kind == 'item' else 0)
    if out.bundles:
        c.prove('collector: a bundle is returned in one piece', out.bundles == 1)
        c.prove('collector: the bundle wait restarts at the send', z3.And(m.previous_send.z >= out.times[-1], m.previous_send.z <= c.now_last))
        c.prove('collector: buffered results are not sent before bundle size or bundle wait',
                z3.Or(n >= size.z, out.times[-1] - last.z >= z3.ToReal(wait.z)))
    else:
        c.prove('collector: a full or overdue bundle is sent',
                z3.Or(n == 0, z3.And(n < size.z, entry - last.z < z3.ToReal(wait.z))))
        c.prove('collector: the bundle wait is kept when nothing is sent', veq(m.previous_send, last))


def run(rep):
    rep.run('ClientCollector.init', init)
    rep.run('ClientCollector.GET_LOCAL', step,
            covers=['collector item -> GET_LOCAL', 'collector empty -> GET_LOCAL', 'collector end -> HALT'])
