"""C25: waiting for a task ends exactly when it finishes and reports its status."""
from pyvc.models import *
from pyvc.core import z3
from pyvc.values import SymBool, SymInt
from pyvc import runtime, dbmodel as D
from cmdkit.app import exit_status

UUID = 'a3b8c1d2-0000-4000-8000-00000000beef'


class Printed:
    def __init__(self):
        self.lines = []
    def vc_print(self, args, kw):
        self.lines.append((args, kw))


class Row(Record):
    schema = {'id': 'str', 'exit_status': '?int', 'completion_time': 'time'}


class Model:
    """Task.from_id by contract: the record as it is now (caching=False) or as last seen."""
    class NotFound(Exception):
        pass
    def __init__(self, w):
        self.w = w
        self.columns = mod('data.model').Task.columns
    def from_id(self, id, caching=True):
        return self.w.look(id, caching)
    def __getattr__(self, a):
        raise Unsupported(f'Task.{a}')


class World:
    def __init__(self, c):
        self.c = c
        self.T = mod('task')
        self.looks = []
        self.log = []
        self.out = Printed()
        c.env['stdout'] = self.out
        self.model = Model(self)
        self.model.NotFound = self.T.Task.NotFound
        self.missing = False
        self.status = None
        self.last = None
    def look(self, id, caching):
        c = self.c
        if caching not in (True, False):
            raise Unsupported('caching')
        self.looks.append((id, caching))
        c.prove('wait: looks at the task asked for', veq(id, UUID))
        if self.missing:
            raise self.model.NotFound('No task')
        if caching and self.last is not None:
            return self.last
        rec = Row(c.fresh_name('task'))
        if self.status is not None:          # once set the status stays (C10, C12)
            rec.__dict__['_vals']['exit_status'] = self.status
        else:
            c.env.setdefault('fresh', []).append(rec)
        self.last = rec
        return rec
    def patches(self, *more):
        T = self.T
        def ensuredb(*a, **k):
            self.log.append('ensuredb')
        return patched((T, 'Task', self.model), (T, 'ensuredb', ensuredb), *more)


def waiting(c):
    """One arbitrary poll of the waiting loop."""
    w = World(c)
    seen = {'n': 0}
    app = w.T.TaskWaitApp()
    app.uuid = UUID
    app.interval = SymInt(z3.Int('interval'))
    c.assume(app.interval.z >= 0)
    def handler(test, body):
        seen['n'] += 1
        if seen['n'] > 1:
            raise Unsupported('second loop')
        seen['before'] = len(w.looks)
        c.prove('wait: does not pause before looking', not c.env.get('sleeps'))
        w.last = None
        go = bool(test())
        r = body() if go else runtime.BREAK
        n = len(w.looks) - seen['before']
        c.prove('wait: one look at the database per poll', n == 1)
        c.prove('wait: every poll looks at fresh data', w.looks[-1][1] is False)
        rec = w.last
        sl = c.env.get('sleeps', [])
        null = z3.Bool(f'{rec._name}.exit_status.null')
        if r is None:
            c.prove('wait: goes on waiting only while no exit status is recorded', SymBool(null))
            c.prove('wait: pauses the requested interval', len(sl) == 1 and SymBool(znum(sl[0]) == app.interval.z))
            c.cover('poll again')
            raise PathEnd('poll')
        c.prove('wait: ends only once an exit status is recorded', SymBool(z3.Not(null)))
        c.prove('wait: does not pause once the task has finished', not sl)
        c.cover('poll ends')
        return None if r is runtime.BREAK else r
    class Any(dict):
        def get(self, k, d=None):
            return handler
    with w.patches(), patched((runtime, 'LOOPS', Any())):
        app.wait_task()
        if not seen['n']:
            raise Unsupported('no loop')


def application(mode):
    """`hs task wait` through the real command line and exit status mapping."""
    def body(c):
        w = World(c)
        T = w.T
        log = w.log
        st = c.choose([('zero', None), ('non-zero', None), ('missing', None), ('malformed', None)], 'task')
        status = SymInt(z3.Int('status'))
        c.assume(status.z == 0 if st == 0 else status.z != 0)
        w.status = status
        w.missing = st == 2
        uuid = UUID if st != 3 else ['', 'x', UUID[:-1], UUID + '0', UUID.replace('-', '')][c.choose([(str(k), None) for k in range(5)], 'text')]
        def wait(self):
            # contract of wait_task (above)
            c.prove('task wait: the task id is checked first', st != 3)
            log.append('wait')
            c.prove('task wait: waits for the task asked for', self.uuid == UUID and (self.interval == 3))
            w.model.from_id(self.uuid, caching=False)
        info = []
        class Info:
            """TaskInfoApp by contract (below): prints the field."""
            def __init__(self, **kw):
                info.append(kw)
            def run(self):
                log.append('info')
        old = T.TaskWaitApp.wait_task
        T.TaskWaitApp.wait_task = wait
        argv = [uuid, '-n', '3'] + {'status': ['--status'], 'return': ['--return'], 'plain': [], 's': ['-s'], 'r': ['-r'], 'info': ['-i']}[mode]
        if uuid == '':
            argv = ['', '-n', '3'] + argv[3:]
        try:
            with w.patches((T, 'TaskInfoApp', Info)):
                r = T.TaskWaitApp.main(argv)
        finally:
            T.TaskWaitApp.wait_task = old
        if st >= 2:
            c.prove(f'task wait ({mode}): a malformed or unknown id is reported as an error', isinstance(r, int) and r != 0)
            c.prove(f'task wait ({mode}): nothing is printed for a malformed or unknown id', not info and not w.out.lines)
            if st == 3:
                c.prove(f'task wait ({mode}): the database is not searched for a malformed id', not w.looks)
            c.cover('error')
            return
        c.prove(f'task wait ({mode}): waits once, before anything is reported', log.count('wait') == 1 and ('info' not in log or log.index('info') > log.index('wait')))
        if mode in ('status', 's'):
            c.prove(f'task wait ({mode}): prints the exit status and nothing else', info == [{'uuid': UUID, 'extract_field': 'exit_status'}] and not w.out.lines)
        elif mode == 'info':
            c.prove('task wait (info): prints the task', len(info) == 1 and info[0].get('uuid') == UUID and not info[0].get('extract_field'))
        else:
            c.prove(f'task wait ({mode}): prints nothing', not info and not w.out.lines)
        if mode in ('return', 'r'):
            c.prove(f'task wait ({mode}): exits with exactly the status of the task', veq(r, status))
        else:
            c.prove(f'task wait ({mode}): exits normally', r == 0)
        c.cover('reported')
    return body


def info_field(c):
    """TaskInfoApp(uuid, extract_field='exit_status').run() prints that task's exit status."""
    w = World(c)
    T = w.T
    status = SymInt(z3.Int('status'))
    w.status = status
    from pyvc.jsonmodel import JsonText
    class Text(JsonText):
        def strip(self, chars=None):
            if chars != '"':
                raise Unsupported('strip')
            return self                     # the text of a number has no quotation marks
    row = w.look
    def look(id, caching):
        rec = row(id, caching)
        return Module(exit_status=rec.exit_status, to_json=lambda: {'id': UUID, 'exit_status': rec.exit_status, 'other': Opaque('other')})
    w.look = look
    with w.patches((T, 'json', Module(dumps=lambda v: Text(v)))):
        T.TaskInfoApp(uuid=UUID, extract_field='exit_status').run()
    l = w.out.lines
    c.prove('task info: one line', len(l) == 1 and len(l[0][0]) == 1 and not l[0][1].get('end'))
    v = l[0][0][0]
    v = v.value if isinstance(v, Text) else v
    c.prove('task info: prints the exit status', veq(v, status))
    c.cover('printed')


def from_id(c):
    """Task.from_id: the row with that identifier; cached attributes are discarded when asked to."""
    from sqlalchemy.exc import NoResultFound
    M = mod('data.model')
    rec = D.TaskRec(c.fresh_name('row'))
    outcome = c.choose([('row', None), ('no row', None)], 'query')
    def handler(s, q, kind):
        if kind != 'one':
            raise Unsupported(kind)
        if outcome:
            raise NoResultFound()
        return rec
    s = D.Session(c, handler)
    fresh = c.choose([('fresh', None), ('cached', None)], 'caching') == 0
    i = mkval('str', 'uuid')
    with patched((M, 'Session', s)):
        error = r = None
        try:
            r = M.Task.from_id(i, caching=False) if fresh else M.Task.from_id(i)
        except M.Task.NotFound as e:
            error = e
    c.prove('from_id: an unknown task is an error', (error is not None) == (outcome == 1) and (outcome == 1 or r is rec))
    c.prove('from_id: one query', len(s.queries) == 1)
    row = D.Row(c.fresh_name('anyrow'))
    c.prove('from_id: looks up exactly that identifier', s.queries[0].pred(row) == (row.val('id') == i.z))
    if fresh:
        kinds = [e[0] for e in s.log]
        c.prove('from_id: what was read before is discarded first', 'expire' in kinds and kinds.index('expire') < kinds.index('one'))
    c.cover(f'from_id {outcome} {fresh}')


def silent(c):
    E = mod('core.exceptions')
    s = SymInt(z3.Int('status'))
    c.prove('handle_exception_silently: the status held by the exception', veq(E.handle_exception_silently(Exception(s)), s))


def run(rep):
    rep.run('TaskWaitApp.wait_task', waiting, covers=['poll again', 'poll ends'])
    for m in ('plain', 'status', 's', 'return', 'r', 'info'):
        rep.run(f'TaskWaitApp {m}', application(m), covers=['error', 'reported'])
    rep.run('TaskInfoApp exit_status', info_field, covers=['printed'])
    rep.run('Task.from_id', from_id, covers=[f'from_id {a} {b}' for a in (0, 1) for b in (True, False)])
    rep.run('handle_exception_silently', silent)
