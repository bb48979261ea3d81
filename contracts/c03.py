"""C03: submission to the database (Loader, DatabaseCommitter, SubmitThread)."""
from pyvc.models import *
from pyvc import core
from pyvc.core import z3

VARS = ['queue', 'tasks', 'bundlesize', 'bundlewait', 'previous_submit']


class TaskContract:
    """Contract of the Task class as used by the submitter (verified in c03_task / C09)."""
    def __init__(self, committed):
        self.committed = committed
        self.on = None
    def add_all(self, items):
        self.committed.extend(frozen(as_seq(items)))
        clock_read()
        if self.on:
            self.on(items)
        return items
    def add(self, item):
        self.add_all([item])


def machine(c, S, committed, received):
    q = Source('in', lambda n: TaskRec(n), received=received)
    patch(S, Task=TaskContract(committed))
    size, wait = mkval('int', 'bundlesize'), mkval('int', 'bundlewait')
    c.assume(size.z >= 1)
    m = S.DatabaseCommitter(queue=q, bundlesize=size, bundlewait=wait)
    return m, q, size, wait


def committer_init(c):
    S = mod('submit')
    committed, received = SymSeq([]), SymSeq([])
    m, q, size, wait = machine(c, S, committed, received)
    r = step_until(m, ['GET'])
    declare(m, VARS)
    c.prove('committer.init: reaches GET with nothing buffered', r == 'GET')
    c.prove('committer.init: nothing received, committed or buffered',
            conj([seq_eq(received, []), seq_eq(committed, []), seq_eq(m.tasks, [])]))
    c.prove('committer.init: waiting period starts at or before now', m.previous_submit.z <= clock_read())


def committer_step(c):
    """Home state GET: received == committed ++ tasks."""
    S = mod('submit')
    T = seqvar('tasks', lambda n: TaskRec(n))
    C = seqvar('committed', lambda n: TaskRec(n))
    committed, received = SymSeq(C.segs), SymSeq(C.segs + T.segs)
    m, q, size, wait = machine(c, S, committed, received)
    step_until(m, ['GET'])
    declare(m, VARS)
    last = SymTime(clock_read(), False)     # time of the latest commit (ghost)
    havoc(m, tasks=T, previous_submit=last)
    c.now_last = last.z
    n0 = T.zlen()
    ghost = {'commit_times': []}
    m_task = S.Task
    m_task.on = lambda items: ghost['commit_times'].append(core.CUR.now_last)
    arrived = []
    q.on_get = lambda x: arrived.append(core.CUR.now_last)
    q.on_empty = lambda: arrived.append(core.CUR.now_last)
    r = step_until(m, ['GET'])
    declare(m, VARS)
    kind = c.env.get('last_in')
    c.cover(f'committer {kind} -> {r}')
    c.prove('committer: every received task is committed or buffered, once, in order',
            seq_eq(received, SymSeq(committed._norm().segs + as_seq(m.tasks)._norm().segs)))
    c.prove('committer: halts exactly on the end marker', (r == 'HALT') == (kind == 'end'))
    if r == 'HALT':
        c.prove('committer: nothing left in the buffer at halt', seq_eq(committed, received))
    else:
        flushed = len(ghost['commit_times']) > 0
        t = arrived[0]
        if kind == 'item':
            c.prove('committer: a full or overdue bundle is written',
                    z3.Or(z3.BoolVal(flushed), z3.And(n0 + 1 < size.z, t - last.z < z3.ToReal(wait.z))))
        else:
            c.cover(f'committer: quiet source, written {flushed}')
            c.prove('committer: an overdue bundle is written also while no further line arrives',
                    z3.Or(z3.BoolVal(flushed), n0 == 0, t - last.z < z3.ToReal(wait.z)))
        if flushed:
            c.prove('committer: the waiting period restarts at the commit',
                    z3.And(m.previous_submit.z >= ghost['commit_times'][-1], m.previous_submit.z <= core.CUR.now_last))
    if r == 'GET' and not ghost['commit_times']:
        c.prove('committer: the waiting period is kept when nothing is committed', veq(m.previous_submit, last))


def run(rep):
    rep.run('DatabaseCommitter.init', committer_init)
    rep.run('DatabaseCommitter.GET', committer_step,
            covers=['committer item -> GET', 'committer empty -> GET', 'committer end -> HALT', 'committer: quiet source, written True', 'committer: quiet source, written False'])
    run_more(rep)


class TemplateContract:
    """expand() is a function of template and argument (its value: C16)."""
    def __init__(self, template='{}'):
        self.template = template
    def expand(self, args):
        return SymStr(uf('template_expand', z3.StringSort(), z3.StringSort(), z3.StringSort())(zstr(self.template), zstr(args)))


def expected_args(template, line):
    from pyvc.values import STRIP
    return SymStr(STRIP(uf('template_expand', z3.StringSort(), z3.StringSort(), z3.StringSort())(zstr(template), STRIP(line.z))))


class TaskNew:
    """Contract of Task.new (proved in c03 'Task.new'): fresh record, stripped args, given tags."""
    @staticmethod
    def new(args, tag=None, **other):
        from pyvc.values import STRIP
        if other:
            raise Unsupported('Task.new with other attributes')
        t = task('new')
        t.__dict__['_vals'].update(args=SymStr(STRIP(zstr(args))), tag=tag)
        return t


def loader_step(c):
    """Home state GET: the tasks handed on are those of the lines consumed so far."""
    S = mod('submit')
    tags, template = Opaque('tags'), mkval('str', 'template')
    lines = seqvar('lines', lambda n: SymStr(z3.String(n)))
    out = seqvar('handed', lambda n: Opaque(n))
    before = SymSeq(out.segs)
    made = []
    sink = Sink('buffer', trace=out, snap=lambda t: (t.args, t.tag) if isinstance(t, TaskRec) else t)
    with patched((S, 'Task', TaskNew), (S, 'Template', TemplateContract)):
        m = S.Loader(source=lines, queue=sink, template=template, tags=tags)
        step_until(m, ['GET'])
        declare(m, ['template', 'source', 'queue', 'tags', 'count', 'task'])
        n0 = mkval('int', 'count0')
        havoc(m, count=n0)
        r = step_until(m, ['GET'], ghost=lambda: {'out': SymSeq(out.segs)})
    c.cover(f'loader -> {r}')
    if r == 'GET':
        lines._norm()
        head = lines.segs[0].v
        c.prove('loader: exactly the task of the next line is handed on, after the earlier ones',
                seq_eq(out, SymSeq(before.segs + [Unit((expected_args(template, head), tags))])))
        c.prove('loader: the count grows by one per line', veq(m.count, n0 + 1))
        rest = m.source.seq if hasattr(m.source, 'seq') else None
        if rest is None:
            raise Unsupported('loader source')
        c.prove('loader: the remaining lines stay to be read, in order', rest.zlen() == lines.zlen() - 1)
    else:
        c.prove('loader: halts only when every line is consumed', lines.zlen() == 0)
        c.prove('loader: nothing is handed on or counted at the end', conj([seq_eq(out, before), veq(m.count, n0)]))


def loader_init(c):
    S = mod('submit')
    with patched((S, 'Task', TaskNew), (S, 'Template', TemplateContract)):
        m = S.Loader(source=seqvar('lines', lambda n: SymStr(z3.String(n))), queue=Sink('buffer'), template=mkval('str', 't'), tags=None)
        r = step_until(m, ['GET'])
    c.prove('loader.init: reaches GET, count zero, nothing handed on', conj([r == 'GET', veq(m.count, 0), seq_eq(m.queue.trace, [])]))


def task_new(c):
    """Real Task.new: fresh id, stripped args, tags, submission data, everything else unset."""
    M = mod('data.model')
    args, tags = mkval('str', 'args'), Opaque('tags')
    calls = []
    made = {}
    real = M.Task
    class Meta(type):
        def __getattr__(cls, a):
            if a.startswith('__'):
                raise AttributeError(a)
            return getattr(real, a)
    class TaskStub(metaclass=Meta):
        def __new__(cls, **kw):
            made.update(kw)
            return object.__new__(cls)
        ensure_valid_tag = staticmethod(lambda t: calls.append(t))
    ids = iter(['uuid-1', 'uuid-2'])
    new = M.Task.__dict__['new'].__func__
    with patched((M, 'Task', TaskStub), (M, 'gen_uuid', lambda: next(ids))):
        t0 = clock_read()
        new(TaskStub, args=args, tag=tags)
        t1 = clock_read()
    from pyvc.values import STRIP
    c.prove('Task.new: the tags are validated first', calls == [tags])
    c.prove('Task.new: arguments are the stripped text', veq(made.get('args'), SymStr(STRIP(args.z))))
    c.prove('Task.new: fresh id', made.get('id') == 'uuid-1')
    if c.branch(z3.Bool('nonempty(tags)')):
        c.prove('Task.new: carries the given tags', made.get('tag') is tags)
    c.prove('Task.new: first attempt, not retried', made.get('attempt') == 1 and made.get('retried') is False)
    c.prove('Task.new: submission data of this process', made.get('submit_id') == M.INSTANCE and made.get('submit_host') == M.HOSTNAME)
    st = made.get('submit_time')
    c.prove('Task.new: submitted now (with offset)', z3.And(st.z >= t0, st.z <= t1) if isinstance(st, SymTime) and st.aware else False)
    c.prove('Task.new: nothing else is set', set(made) <= {'id', 'args', 'submit_id', 'submit_host', 'submit_time', 'attempt', 'retried', 'tag'})


def submit_thread(c):
    S = mod('submit')
    size, wait, template, tags, source = mkval('int', 'size'), mkval('int', 'wait'), mkval('str', 'template'), Opaque('tags'), seqvar('lines', lambda n: SymStr(z3.String(n)))
    c.assume(size.z >= 1)
    with patched((S, 'Template', TemplateContract)):
        t = S.SubmitThread(source, bundlesize=size, bundlewait=wait, template=template, tags=tags)
    ld, cm = t.loader.machine, t.committer.machine
    c.prove('SubmitThread: loader and committer share one buffer', ld.queue is cm.queue and ld.queue is t.queue)
    c.prove('SubmitThread: options reach the machines', conj([veq(cm.bundlesize, size), veq(cm.bundlewait, wait), ld.tags is tags, veq(ld.template.template, template)]))
    cnt = mkval('int', 'count')
    ld.count = cnt
    c.prove('SubmitThread: the reported count is the loader\'s', veq(t.task_count, cnt))
    log = []
    t.loader, t.committer, t.queue = Recorder('loader', log), Recorder('committer', log), Recorder('queue', log)
    t.run_with_exceptions()
    c.prove('SubmitThread: end marker is queued after the loader ended, then the committer is awaited',
            ordered(log, 'loader.start', 'loader.join', ('queue.put', (None,)), 'committer.join'))
    c.prove('SubmitThread: committer is started before it is awaited', ordered(log, 'committer.start', 'committer.join'))
    c.prove('SubmitThread: loader and committer are awaited without time limit', untimed(log))


def submit_from(c):
    S = mod('submit')
    vals = {k: Opaque(k) for k in ('source', 'bundlesize', 'bundlewait', 'template', 'tags')}
    for live in (False, True):
        log = []
        cfg = Module() if live else None
        res = Opaque('count')
        f1, f2 = Factory('db', log, {'task_count': res}), Factory('live', log, {'task_count': res})
        sig_db, sig_live = S.SubmitThread.__init__, S.LiveSubmitThread.__init__
        with patched((S, 'SubmitThread', f1), (S, 'LiveSubmitThread', f2)):
            r = S.submit_from(vals['source'], queue_config=cfg, bundlesize=vals['bundlesize'], bundlewait=vals['bundlewait'],
                              template=vals['template'], tags=vals['tags'])
        used, other = (f2, f1) if live else (f1, f2)
        ok = len(used.made) == 1 and not other.made
        c.prove(f'submit_from: one submitter of the right kind (live={live})', ok)
        a, k, rec = used.made[0]
        b = bind(sig_live if live else sig_db, a, k, skip_self=True)
        c.prove(f'submit_from: every option is passed on unchanged (live={live})', all(b[n] is vals[n] for n in vals) and (not live or b['queue_config'] is cfg))
        c.prove(f'submit_from: waits for the submitter and returns its count (live={live})', r is res and len(where(log, ('live' if live else 'db') + '.join')) == 1 and untimed(log))


def run_more(rep):
    rep.run('Loader.init', loader_init)
    rep.run('Loader.GET', loader_step, covers=['loader -> GET', 'loader -> HALT'])
    rep.run('Task.new', task_new)
    rep.run('SubmitThread', submit_thread)
    rep.run('submit_from', submit_from)


def submit_file(c):
    S = mod('submit')
    vals = {k: Opaque(k) for k in ('queue_config', 'bundlesize', 'bundlewait', 'template', 'tags')}
    path, res, stream = Opaque('path'), Opaque('count'), Recorder('stream', [])
    log = []
    c.env['open'] = lambda *a, **k: (log.append(('open', a, k)), stream)[1]
    def fake(*a, **k):
        log.append(('submit_from', a, k))
        return res
    sig = S.submit_from
    with patched((S, 'submit_from', fake)):
        r = S.submit_file(path, **vals)
    opens = [e for e in log if e[0] == 'open']
    calls = [e for e in log if e[0] == 'submit_from']
    c.prove('submit_file: the named file is opened for reading', len(opens) == 1 and opens[0][1][0] is path and (opens[0][1][1:2] == ('r',) or opens[0][2].get('mode', 'r') == 'r'))
    c.prove('submit_file: one submission, its count returned', len(calls) == 1 and r is res)
    b = bind(sig, calls[0][1], calls[0][2])
    c.prove('submit_file: source is the file, every option is passed on unchanged', b['source'] is stream and all(b[k] is vals[k] for k in vals))


def submit_app(c):
    S = mod('submit')
    res, tags = Opaque('count'), Opaque('tags')
    app = object.__new__(S.SubmitApp)
    given = {k: Opaque(k) for k in ('source', 'template', 'bundlesize', 'bundlewait', 'taglist')}
    for k, v in given.items():
        setattr(app, k, v)
    log = []
    sig = S.submit_from
    class TagC:
        @staticmethod
        def parse_cmdline_list(x):
            log.append(('tags', (x,), {}))
            return tags
    with patched((S, 'submit_from', lambda *a, **k: (log.append(('submit_from', a, k)), res)[1]), (S, 'Tag', TagC)):
        app.run()
    calls = [e for e in log if e[0] == 'submit_from']
    c.prove('SubmitApp: one submission', len(calls) == 1)
    b = bind(sig, calls[0][1], calls[0][2])
    c.prove('SubmitApp: source, template, bundle options and parsed tags are passed on', all(b[k] is given[k] for k in ('source', 'template', 'bundlesize', 'bundlewait')) and b['tags'] is tags and b['queue_config'] is None)
    c.prove('SubmitApp: the tags are those given', all(e[1][0] is given['taglist'] for e in log if e[0] == 'tags'))
    c.prove('SubmitApp: reported count is the submitter\'s', app.count is res)


def submit_source(c):
    """Entering and leaving `hs submit`: the source is the named file, or standard input for '-'."""
    S = mod('submit')
    log = []
    app = object.__new__(S.SubmitApp)
    stdin = Recorder('stdin', log)
    stdin_given = c.choose([('-', None), ('file', None)], 'path') == 0
    app.filepath = '-' if stdin_given else SymStr(z3.String('path'))
    if not stdin_given:
        c.assume(app.filepath.z != z3.StringVal('-'))
    app.auto_initdb = mkval('bool', 'initdb')
    opened = []
    def open_(path, mode='r', **kw):
        f = Recorder('file', log)
        opened.append((f, path, mode, kw))
        return f
    c.env['open'] = open_
    sqlite = c.choose([('sqlite', None), ('postgres', None)], 'provider') == 0
    db = {n: [None, '', ':memory:', 'some/where'][c.choose([('none', None), ('empty', None), ('memory', None), ('named', None)], n)]
          for n in ('file', 'database')}
    class Db:
        provider = 'sqlite' if sqlite else 'postgres'
        @staticmethod
        def get(k, d=None):
            if k not in db:
                raise Unsupported(f'database.{k}')
            return d if db[k] is None else db[k]
    for n in db:
        setattr(Db, n, db[n])
    memory = sqlite and (db['file'] or db['database']) in (None, '', ':memory:')
    ready = []
    left = None
    with patched((S, 'config', Module(database=Db)), (S, 'initdb', lambda *a: ready.append('init')), (S, 'checkdb', lambda *a: ready.append('check')),
                 (S, 'sys', Module(stdin=stdin))):
        try:
            r = app.__enter__()
        except S.ConfigurationError:
            c.cover('submit refused')
            c.prove('SubmitApp: refused only for an in-memory database', memory)
            return
        c.prove('SubmitApp: submitting to an in-memory database is refused', not memory)
        c.prove('SubmitApp: entering gives the command itself', r is app)
        src = app.source
        if stdin_given:
            c.prove('SubmitApp: "-" is standard input', src is stdin and not opened)
        else:
            c.prove('SubmitApp: the source is the named file', len(opened) == 1 and src is opened[0][0] and opened[0][2] in ('r', 'rt') and SymBool(app.filepath.z == opened[0][1].z))
        auto = sqlite or c.branch(app.auto_initdb.z, 'initdb')
        c.prove('SubmitApp: the database is created where that is automatic or asked for, otherwise its presence is checked', ready == (['init'] if auto else ['check']))
        c.cover(f'submit source stdin={stdin_given} auto={auto}')
        c.prove('SubmitApp: the source is not touched before the submission', not log)
        e = app.__exit__(None, None, None)
        c.prove('SubmitApp: leaving does not swallow errors', not e)
        c.prove('SubmitApp: only a file opened here is closed', [x[0] for x in log] == ([] if stdin_given else ['file.close']))


_run_more = run_more
def run_more(rep):
    rep.run('SubmitApp.source', submit_source, covers=['submit refused', 'submit source stdin=True auto=True', 'submit source stdin=False auto=False', 'submit source stdin=False auto=True'])
    _run_more(rep)
    rep.run('submit_file', submit_file)
    rep.run('SubmitApp', submit_app)
