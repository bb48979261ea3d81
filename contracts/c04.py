"""C04: submission straight to the server queue (Loader as in C03, QueueCommitter, LiveSubmitThread)."""
from pyvc.models import *
from pyvc.core import z3
from contracts import c03

VARS = ['local', 'client', 'tasks', 'bundle', 'bundlesize', 'bundlewait', 'previous_submit']


def machine(c, S, flat, received):
    q = Source('in', lambda n: TaskRec(n), on_get=lambda x: received.append(Wrapped('pack', x.freeze())))
    out = BundleSink('scheduled', flat, 'queue committer')
    size, wait = mkval('int', 'bundlesize'), mkval('int', 'bundlewait')
    c.assume(size.z >= 1)
    m = S.QueueCommitter(local=q, client=Module(scheduled=out), bundlesize=size, bundlewait=wait)
    return m, q, out, (size, wait)


def qc_init(c):
    S = mod('submit')
    flat, received = SymSeq([]), SymSeq([])
    m, q, out, _ = machine(c, S, flat, received)
    r = step_until(m, ['GET'])
    declare(m, VARS)
    c.prove('queue committer.init: reaches GET with nothing received, delivered or buffered',
            conj([r == 'GET', seq_eq(received, []), seq_eq(flat, []), seq_eq(m.tasks, [])]))
    c.aux('queue committer.init: no packed bundle', seq_eq(m.bundle, []))


def qc_step(c):
    """Home state GET: map(pack, received) == delivered ++ map(pack, tasks)."""
    S = mod('submit')
    T = seqvar('tasks', lambda n: TaskRec(n))
    D = seqvar('delivered', lambda n: Opaque(n))
    flat, received = SymSeq(D.segs), cat(D, packs(T))
    m, q, out, (size, wait) = machine(c, S, flat, received)
    step_until(m, ['GET'])
    last = SymTime(clock_read(), False)      # ghost: time of the latest delivery
    havoc(m, tasks=T, bundle=SymSeq([]), previous_submit=last)
    n0 = T.zlen()
    polled = []
    note = q.on_get
    q.on_get = lambda x: (note(x), polled.append(c.now_last))
    q.on_empty = lambda: polled.append(c.now_last)
    ghost = lambda: {'flat': SymSeq(flat.segs)}
    r = step_until(m, ['GET'], ghost=ghost)
    declare(m, VARS)
    kind = c.env.get('last_in')
    c.cover(f'queue committer {kind} -> {r}')
    c.prove('queue committer: every received task is delivered or buffered, once, in order, encoded as received',
            seq_eq(received, cat(flat, packs(m.tasks))))
    c.prove('queue committer: halts exactly on the end marker', (r == 'HALT') == (kind == 'end'))
    if r == 'HALT':
        c.prove('queue committer: nothing left in the buffer at halt', seq_eq(flat, received))
    else:
        c.aux('queue committer: no packed bundle between iterations', seq_eq(m.bundle, []))
        c.cover(f'queue committer: {kind}, delivered {out.bundles > 0}')
        more = 1 if kind == 'item' else 0
        c.prove('queue committer: a full or overdue bundle is delivered, also while no further line arrives',
                z3.Or(z3.BoolVal(out.bundles > 0), n0 + more == 0, z3.And(n0 + more < size.z if more else z3.BoolVal(True), polled[0] - last.z < z3.ToReal(wait.z))))
        if out.bundles:
            c.prove('queue committer: the waiting period restarts at the delivery', z3.And(m.previous_submit.z >= out.times[-1], m.previous_submit.z <= c.now_last))
        else:
            c.prove('queue committer: the waiting period is kept when nothing is delivered', veq(m.previous_submit, last))


def live_thread(c):
    S = mod('submit')
    size, wait, template, tags, source = mkval('int', 'size'), mkval('int', 'wait'), mkval('str', 'template'), Opaque('tags'), seqvar('lines', lambda n: SymStr(z3.String(n)))
    c.assume(size.z >= 1)
    cfg = Module()
    log = []
    F = Factory('client', log)
    with patched((S, 'Template', c03.TemplateContract), (S, 'QueueClient', F)):
        t = S.LiveSubmitThread(source, queue_config=cfg, bundlesize=size, bundlewait=wait, template=template, tags=tags)
    ld, cm = t.loader.machine, t.committer.machine
    client = F.made[0][2]
    c.prove('LiveSubmitThread: loader and committer share one buffer', ld.queue is cm.local and ld.queue is t.local)
    c.prove('LiveSubmitThread: one queue client on the given configuration', len(F.made) == 1 and (list(F.made[0][0]) + list(F.made[0][1].values()) == [cfg]) and cm.client is client)
    c.prove('LiveSubmitThread: options reach the machines', conj([veq(cm.bundlesize, size), veq(cm.bundlewait, wait), ld.tags is tags, veq(ld.template.template, template)]))
    cnt = mkval('int', 'count')
    ld.count = cnt
    c.prove('LiveSubmitThread: the reported count is the loader\'s', veq(t.task_count, cnt))
    log.clear()
    t.loader, t.committer, t.local = Recorder('loader', log), Recorder('committer', log), Recorder('local', log)
    t.run_with_exceptions()
    c.prove('LiveSubmitThread: connected first; end marker queued after the loader ended; committer awaited before disconnecting',
            ordered(log, 'client.__enter__', 'loader.start', 'loader.join', ('local.put', (None,)), 'committer.join', 'client.__exit__')
            and ordered(log, 'client.__enter__', 'committer.start', 'committer.join'))
    c.prove('LiveSubmitThread: loader and committer are awaited without time limit', untimed(log))


def run(rep):
    rep.run('Loader.init', c03.loader_init)
    rep.run('Loader.GET', c03.loader_step, covers=['loader -> GET', 'loader -> HALT'])
    rep.run('Task.new', c03.task_new)
    rep.run('QueueCommitter.init', qc_init)
    rep.run('QueueCommitter.GET', qc_step,
            covers=['queue committer item -> GET', 'queue committer empty -> GET', 'queue committer end -> HALT', 'queue committer: empty, delivered True', 'queue committer: empty, delivered False', 'queue committer: item, delivered False'])
    rep.run('LiveSubmitThread', live_thread)
    rep.run('submit_from', c03.submit_from)
