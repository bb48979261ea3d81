"""C23: state machines run until halted, and component failures are not swallowed."""
import importlib
import pkgutil
import threading
from pyvc.models import *
from pyvc.core import z3
from pyvc import runtime
from pyvc.core import PathEnd
import queue as _q

MACHINES = ['LoaderThread', 'DatabaseCommitterThread', 'QueueCommitterThread', 'SchedulerThread', 'ConfirmThread', 'ReceiverThread', 'HeartMonitorThread',
            'ClientSchedulerThread', 'ClientCollectorThread', 'TaskThread', 'ClientHeartbeatThread', 'AutoScalerThread']
COMPOSITES = ['SubmitThread', 'LiveSubmitThread', 'ServerThread', 'ClientThread', 'LocalCluster', 'RemoteCluster', 'AutoScalingCluster', 'SSHCluster']


class Boom(Exception):
    """Any error."""


class St:
    """A state of which nothing is known but its identity."""
    def __init__(self, n):
        self.name = n
        self.value = n
    def __repr__(self):
        return self.name


class World:
    def __init__(self, c):
        self.c = c
        self.F = mod('core.fsm')
        self.HALT, self.A, self.B = St('HALT'), St('A'), St('B')
        self.done = []
        self.raised = None
        world = self
        class Actions:
            def get(self, s, default=None):
                return world.action(s)
            __getitem__ = get
            def __contains__(self, s):
                return True
        class M(self.F.StateMachine):
            states = Module(HALT=world.HALT, A=world.A, B=world.B)
            state = world.A
            actions = Actions()
        self.M = M
    def action(self, s):
        if s is self.HALT:
            raise Unsupported('action of the halt state looked up')
        def act():
            c = self.c
            self.done.append(s)
            if len(self.done) > 1:
                c.prove('machine: one action per step', False)
            k = c.choose([('other', None), ('same', None), ('halt', None), ('error', None)], 'action')
            self.asked_meanwhile = c.choose([('no', None), ('halt requested meanwhile', None)], 'halt') == 1
            if self.asked_meanwhile:
                self.m.halt()
            if k == 3:
                self.raised = [Boom('x'), KeyError('k'), RuntimeError()][c.choose([('Boom', None), ('KeyError', None), ('RuntimeError', None)], 'error')]
                raise self.raised
            self.result = [self.B, s, self.HALT][k]
            return self.result
        return act
    def check(self, what, at, halted, error):
        """Outcome of one step from state `at`."""
        c = self.c
        if halted:
            c.prove(f'{what}: no action once asked to halt', not self.done)
            c.prove(f'{what}: asking to halt is no error', error is None)
            return
        c.prove(f'{what}: exactly the action of the current state is performed', len(self.done) == 1 and self.done[0] is at)
        if self.raised is not None:
            c.prove(f'{what}: an error raised by an action is raised again', error is self.raised, repr(error))
            c.cover(f'{what} error')
        else:
            c.prove(f'{what}: no error without one', error is None, repr(error))


def step(c):
    w = World(c)
    with patched((w.F, 'write_traceback', lambda *a, **k: None)):
        m, other = w.M(), w.M()
        w.m = m
        if c.choose([('alone', None), ('another machine halted', None)], 'others') == 1:
            other.halt()
        halted = c.choose([('running', None), ('asked to halt', None)], 'halt') == 1
        if halted:
            m.halt()
        error = r = None
        try:
            r = m.next()
        except Exception as e:
            error = e
        w.check('next', w.A, halted, error)
        if halted:
            c.prove('next: asked to halt, the next state is the halt state', r is w.HALT)
            c.cover('next halted')
        elif error is None:
            c.prove('next: the state returned by the action follows', r is w.result)
            c.cover('next')


def loop(c):
    w = World(c)
    seen = {'loops': 0}
    def handler(test, body):
        seen['loops'] += 1
        if seen['loops'] > 1:
            raise Unsupported('second loop')
        c.prove('run: nothing happens before the first step', not w.done and w.m.state is w.A)
        # an arbitrary iteration
        m = w.m
        m.state = (w.A, w.B, w.HALT)[c.choose([('A', None), ('B', None), ('HALT', None)], 'state')]
        at = m.state
        halted = c.choose([('running', None), ('asked to halt', None)], 'halt') == 1
        if halted:
            m.halt()
        go = bool(test())
        c.prove('run: continues until the halt state', go or at is w.HALT or halted)
        c.prove('run: deciding whether to go on performs no action', not w.done)
        if not go:
            c.cover('run ends')
            seen['end'] = True
            return None
        error = r = None
        try:
            r = body()
        except Exception as e:
            error = e
        if r is runtime.BREAK and not w.done:      # the decision to stop is taken inside the body
            c.prove('run: stops only at the halt state', at is w.HALT or halted)
            c.cover('run ends')
            seen['end'] = True
            return None
        if error is None and r is None:
            c.prove('run: stops at the halt state', at is not w.HALT)
        w.check('run', at, halted, error)
        if error is not None:
            seen['error'] = error
            raise error
        if r is runtime.BREAK or r is not None:
            c.prove('run: leaves only at the halt state', m.state is w.HALT or halted)
        elif halted:
            c.prove('run: asked to halt, the machine reaches the halt state', m.state is w.HALT)
        else:
            c.prove('run: moves to the state returned by the action', m.state is w.result)
        c.cover('run step')
        raise PathEnd('iteration')
    class Any(dict):
        def get(self, k, d=None):
            return handler
    with patched((w.F, 'write_traceback', lambda *a, **k: None), (runtime, 'LOOPS', Any())):
        w.m = w.M()
        try:
            w.m.run()
        except Exception as e:
            c.prove('run: the error of an action reaches the caller', e is w.raised and e is seen.get('error'), repr(e))
            c.cover('run error out')
            return
        if not seen['loops']:
            raise Unsupported('no loop')
        c.prove('run: nothing happens after the last step', seen.get('end') is True and not w.done)


class Joins:
    """threading.Thread.join / start by contract: join waits for run() to end or the time limit."""
    def __init__(self):
        self.calls, self.started = [], []
    def patches(self):
        def join(t, timeout=None):
            self.calls.append((t, timeout))
        def start(t):
            self.started.append(t)
        return patched((threading.Thread, 'join', join), (threading.Thread, 'start', start))




def thread(c):
    T = mod('core.thread')
    outcome = [None]
    runs = []
    class X(T.Thread):
        def __init__(self, *a, **k):
            super().__init__(name='x')
            self.args = (a, k)
        def run_with_exceptions(self):
            runs.append(self)
            if outcome[0] is not None:
                raise outcome[0]
    j = Joins()
    with Patch(j):
        t, u = X(), X()
        e = [None, Boom('x'), KeyError('k'), SystemError()][c.choose([('fine', None), ('Boom', None), ('KeyError', None), ('SystemError', None)], 'outcome')]
        timeout = [None, 0, 5][c.choose([('none', None), ('0', None), ('5', None)], 'timeout')]
        when = c.choose([('still running', None), ('ended', None)], 'moment')
        if when == 1:
            outcome[0] = e
            try:
                t.run()
            except Exception as x:
                c.prove('thread: an error does not escape into the runtime', False, repr(x))
            c.prove('thread: performs its work exactly once', runs == [t])
            outcome[0] = None
            u.run()
        want = e if when == 1 else None
        how = c.choose([('join', None), ('stop and wait', None), ('stop', None)], 'how')
        for k in (1, 2):
            j.calls.clear()
            got = None
            try:
                if how == 0:
                    t.join(timeout=timeout)
                elif how == 1:
                    t.stop(wait=True, timeout=timeout)
                else:
                    t.stop()
            except Exception as x:
                got = x
            if how == 2:
                c.prove('thread: stopping without waiting neither waits nor fails', got is None and not j.calls)
            else:
                c.prove('thread: waits for the thread, with the time limit given', len(j.calls) == 1 and j.calls[0][0] is t and j.calls[0][1] == timeout)
                c.prove('thread: whoever waits gets the error of the component', got is want, repr(got))
        try:
            u.join()
        except Exception as x:
            c.prove('thread: an error of one component is not raised by another', False, repr(x))
        c.cover('thread ' + ('error' if want else 'fine'))
        n = X.new(1, two=2)
        c.prove('Thread.new: creates the thread and starts it', isinstance(n, X) and n.args == ((1,), {'two': 2}) and j.started == [n])


class Patch:
    def __init__(self, j):
        self.j = j
    def __enter__(self):
        j = self.j
        self.old = threading.Thread.join, threading.Thread.start
        def join(t, timeout=None):
            j.calls.append((t, timeout))
        def start(t):
            j.started.append(t)
        threading.Thread.join, threading.Thread.start = join, start
    def __exit__(self, *a):
        threading.Thread.join, threading.Thread.start = self.old


def classes():
    """Every thread class of the package."""
    H = importlib.import_module('hypershell')
    for m in pkgutil.walk_packages(H.__path__, 'hypershell.'):
        if not m.name.endswith('__main__'):
            importlib.import_module(m.name)
    T = mod('core.thread').Thread
    out, todo = {}, [T]
    while todo:
        for k in todo.pop().__subclasses__():
            if k.__module__.startswith('hypershell') and k not in out.values():
                out[k.__name__] = k
                todo.append(k)
    return out


def machines(name):
    def body(c):
        cl = classes()
        unknown = set(cl) - set(MACHINES) - set(COMPOSITES) - {'RemoteProcess', 'BufferedTransport'}     # not part of a running system
        if unknown or name not in cl:
            raise Unsupported(f'thread classes {sorted(unknown) or name}')
        T = mod('core.thread').Thread
        log = []
        t = cl[name].__new__(cl[name])
        T.__init__(t, name='x')
        t.__dict__['id'] = 1
        err = Boom('x') if c.choose([('fine', None), ('error', None)], 'machine') else None
        def run():
            if err:
                raise err
        t.machine = Recorder('machine', log, methods={'run': run})
        j = Joins()
        with Patch(j):
            if c.choose([('run', None), ('stop', None)], 'what') == 0:
                t.run()
                c.prove(f'{name}: runs its machine to the end, once', [e[0] for e in log if e[0] in ('machine.run', 'machine.halt')] == ['machine.run'])
                got = None
                try:
                    t.join()
                except Exception as x:
                    got = x
                c.prove(f'{name}: the error of its machine reaches whoever waits', got is err, repr(got))
                c.cover('run')
            else:
                wait = c.choose([('wait', None), ('no wait', None)], 'wait') == 0
                t.stop(wait=wait, timeout=7)
                c.prove(f'{name}: stopping asks its machine to halt', [e[0] for e in log] == ['machine.halt'])
                c.prove(f'{name}: stopping waits if asked to', [x[1] for x in j.calls] == ([7] if wait else []))
                c.cover('stop')
    return body


CHILDREN = {
    'SubmitThread': ['loader', 'committer'],
    'LiveSubmitThread': ['loader', 'committer'],
    'ServerThread': ['submitter', 'scheduler', 'heartmonitor', 'receiver', 'confirm'],
    'LocalCluster': ['server', 'client'],
    'RemoteCluster': ['server'],
    'AutoScalingCluster': ['server', 'autoscaler'],
    'SSHCluster': ['server'],
    'ClientThread': ['scheduler', 'collector', 'heartbeat', 'executor'],
}


def composite(name):
    def body(c):
        cl = classes()
        if name not in cl:
            raise Unsupported(name)
        k = cl[name]
        T = mod('core.thread').Thread
        log = []
        t = k.__new__(k)
        T.__init__(t, name='x')
        kids = CHILDREN[name]
        bad = [None] + kids
        bad = bad[c.choose([(str(b), None) for b in bad], 'failing child')]
        err = Boom('child')
        def fail(*a, **kw):
            raise err
        def part(n):
            return Recorder(n, log, methods={'join': fail} if n == bad else {})
        d = t.__dict__
        for n in kids:
            d[n] = part(n)
        for n in ('queue', 'local', 'client', 'inbound', 'outbound'):
            d.setdefault(n, Recorder(n, log))
        if name in ('SubmitThread', 'LiveSubmitThread'):
            d['source'] = ['x']
        if name == 'ServerThread':
            d.update(no_confirm=False, in_memory=False)
        if name == 'ClientThread':
            d.pop('executor')
            n = mkval('int', 'num_tasks')
            d.update(num_tasks=n, delay_start=0)
            pre, post = Var('executors_before', Quiet), Var('executors_after', Quiet)
            ex = [pre, Unit(part('executor')), post]
            c.assume(n.z == pre.n + post.n + 1)
            d['executors'] = SymSeq(ex)
        clients = Recorder('popen', log)
        d['client_argv'] = ['a', 'b'] if name != 'SSHCluster' else [['a'], ['b']]
        M = importlib.import_module(k.__module__)
        ps = [(M, n, f) for n, f in (('Popen', lambda *a, **kw: clients), ('load_task_env', dict), ('set_client_standalone', lambda *a: None)) if hasattr(M, n)]
        got = None
        with patched(*ps), Patch(Joins()):
            try:
                t.run_with_exceptions()
            except Boom as x:
                got = x
        c.prove(f'{name}: an error of a component is raised again by whoever waits for it', got is (err if bad else None))
        c.cover(f'{name} {bad}')
        if bad:
            return
        c.prove(f'{name}: every component is started and awaited', all(where(log, f'{n}.start') and where(log, f'{n}.join') for n in kids))
    return body


class Quiet(Record):
    """An executor that ends normally."""
    schema = {'id': 'int'}
    def start(self):
        pass
    def is_alive(self):
        return False
    def join(self, timeout=None):
        pass


# ------------------------------------------------------- a failed part does not leave the others waiting

class Buffer:
    """Bounded queue between loader and committer: arbitrarily many tasks, then the end marker."""
    def __init__(self, c, ended):
        self.c, self.ended, self.gets = c, ended, 0
    def get(self, block=True, timeout=None):
        c = self.c
        waits = block and timeout is None
        if self.ended:
            c.prove('submission: a failed committer does not wait for a second end marker', not waits)
            raise _q.Empty()
        self.gets += 1
        opts = [('task', None), ('end', None)] + ([] if waits else [('empty', None)])
        k = c.choose(opts, 'buffer')
        if k == 2:
            raise _q.Empty()
        if k == 1:
            self.ended = True
            return None
        return Opaque('task')
    def get_nowait(self):
        return self.get(False)
    def task_done(self):
        pass


def delivery(name, machine, buffer):
    """The machine of a committer failed in any state: its buffer is emptied up to the end marker (unless that was seen),
    so that the loader ends, and the error is kept for whoever waits."""
    def body(c):
        U = mod('submit')
        T = mod('core.thread').Thread
        k = getattr(U, name)
        t = k.__new__(k)
        T.__init__(t, name='x')
        err = Boom('x')
        mk = getattr(U, machine)
        m = mk.__new__(mk)
        states = [x for x in mk.states if x.name != 'HALT']
        i = c.choose([(x.name, None) for x in states], 'failed in')
        m.state = states[i]
        b = Buffer(c, states[i].name == 'FINAL')
        def run():
            raise err
        m.run = run
        setattr(m, buffer, b)
        setattr(m, 'client', Module(scheduled=None))
        t.machine = m
        def handler(test, body):
            for _ in range(2):
                before = b.ended
                if not bool(test()):
                    return None
                try:
                    r = body()
                except _q.Empty:
                    raise Unsupported('wait with time limit')
                if r is not None:
                    return r if r is not runtime.BREAK else None
            raise PathEnd('iteration')
        class Any(dict):
            def get(self, q, d=None):
                return handler
        with Patch(Joins()), patched((runtime, 'LOOPS', Any())):
            t.run()
            got = None
            try:
                t.join()
            except Exception as x:
                got = x
        c.prove(f'{name}: the loader is not left waiting for room in the buffer', b.ended)
        c.prove(f'{name}: the error reaches whoever waits', got is err, repr(got))
        c.cover('delivery failed')
    return body


PARTS = ['submitter', 'scheduler', 'heartmonitor', 'receiver', 'confirm']


def server_waits(c):
    """One part of the server never ends because another one failed: the server ends with that error."""
    S = mod('server')
    T = mod('core.thread').Thread
    log = []
    t = S.ServerThread.__new__(S.ServerThread)
    T.__init__(t, name='x')
    a = c.choose([(n, None) for n in PARTS[:3]], 'awaited')
    others = PARTS[max(a + 1, 1):]
    bad = others[c.choose([(n, None) for n in others], 'failing')]
    awaited = PARTS[a]
    late = c.choose([('at once', None), ('later', None)], 'fails')
    err = Boom('child')
    polls = [0]
    class Part:
        def __init__(self, n):
            self.n, self.started = n, False
        def start(self):
            self.started = True
        @property
        def failed(self):
            return self.n == bad and polls[0] >= late
        def is_alive(self):
            tick()
            return self.n in PARTS[a:] and not self.failed
        def join(self, timeout=None):
            tick()
            if self.failed:
                raise err
            if self.n in PARTS[a:] and timeout is None:
                c.prove('server: it is not kept waiting when a part of it failed', False, f'waits for {self.n} while {bad} failed')
        def __getattr__(self, n):
            if n.startswith('signal_'):
                return lambda *x, **k: None
            raise AttributeError(n)
    def tick():
        polls[0] += 1
        if polls[0] > 60:
            c.prove('server: it is not kept waiting when a part of it failed', False, f'waits for {awaited} while {bad} failed')
    d = t.__dict__
    for n in PARTS:
        d[n] = Part(n)
    d['queue'] = Recorder('queue', log)
    d.update(no_confirm=False, in_memory=False)
    got = None
    try:
        t.run_with_exceptions()
    except Boom as x:
        got = x
    c.prove('server: the error of a failed part ends it', got is err, f'{awaited} {bad}')
    c.prove('server: the queues are closed', where(log, 'queue.__exit__') != [])
    c.cover(f'{awaited} {bad}')


CLIENT = ['collector', 'heartbeat', 'executors']


def client_waits(c):
    """One part of the client never ends because another one failed: the client ends with that error."""
    C = mod('client')
    T = mod('core.thread').Thread
    log = []
    t = C.ClientThread.__new__(C.ClientThread)
    T.__init__(t, name='x')
    awaited = ['scheduler', 'executors'][c.choose([('scheduler', None), ('executors', None)], 'awaited')]
    others = CLIENT if awaited == 'scheduler' else CLIENT[:2]
    bad = others[c.choose([(n, None) for n in others], 'failing')]
    late = c.choose([('at once', None), ('later', None)], 'fails')
    full = c.choose([('room', None), ('full', None)], 'buffers')
    err = Boom('child')
    polls = [0]
    def tick():
        polls[0] += 1
        if polls[0] > 60:
            stuck(awaited)
    def stuck(what):
        c.prove('client: it is not kept waiting when a part of it failed', False, f'waits for {what} while {bad} failed')
        raise PathEnd('stuck')
    def alive(n):
        tick()
        if n == bad:
            return polls[0] < late
        return n != 'scheduler' or awaited == 'scheduler'
    def join(n, timeout):
        tick()
        if n == bad and polls[0] >= late:
            raise err
        if timeout is None and (n != 'scheduler' or awaited == 'scheduler'):
            stuck(n)
    class Part:
        def __init__(self, n): self.n = n
        def start(self): pass
        def is_alive(self): return alive(self.n)
        def join(self, timeout=None): join(self.n, timeout)
        def signal_finished(self): pass
    class Executor(Record):
        schema = {'id': 'int'}
        def start(self): pass
        def is_alive(self): return alive('executors')
        def join(self, timeout=None): join('executors', timeout)
    class Buf:
        def put(self, item, block=True, timeout=None):
            tick()
            if full:
                if block and timeout is None:
                    stuck('room in a buffer')
                raise _q.Full()
        def put_nowait(self, item):
            self.put(item, False)
    d = t.__dict__
    for n in ('scheduler', 'collector', 'heartbeat'):
        d[n] = Part(n)
    n = mkval('int', 'num_tasks')
    ex = Var('executors', Executor)
    c.assume(n.z == ex.n)
    c.assume(n.z >= 1)
    d.update(num_tasks=n, delay_start=0, executors=SymSeq([ex]), inbound=Buf(), outbound=Buf(), client=Recorder('client', log))
    got = None
    def handler(test, body):
        while bool(test()):
            r = body()
            if r is runtime.BREAK:
                return None
            if r is not None:
                return r
        return None
    class Any(dict):
        def get(self, q, d=None):
            return handler
    with patched((runtime, 'LOOPS', Any())):
        try:
            t.run_with_exceptions()
        except Boom as x:
            got = x
    c.prove('client: the error of a failed part ends it', got is err, f'{awaited} {bad}')
    c.prove('client: the connection is closed', where(log, 'client.__exit__') != [])
    c.cover(f'{awaited} {bad}')


def autoscaling_waits(c):
    """The autoscaler does not go on for ever when the server failed."""
    R = mod('cluster.remote')
    T = mod('core.thread').Thread
    t = R.AutoScalingCluster.__new__(R.AutoScalingCluster)
    T.__init__(t, name='x')
    late = c.choose([('at once', None), ('later', None)], 'fails')
    err = Boom('server')
    polls = [0]
    def tick():
        polls[0] += 1
        if polls[0] > 60:
            stuck()
    def stuck():
        c.prove('autoscaling cluster: it does not go on when its server failed', False)
        raise PathEnd('stuck')
    class Server:
        def start(self): pass
        def is_alive(self):
            tick()
            return polls[0] < late
        def join(self, timeout=None):
            tick()
            if polls[0] >= late:
                raise err
            if timeout is None:
                stuck()
    class Scaler:
        def start(self): pass
        def is_alive(self):
            tick()
            return True
        def join(self, timeout=None):
            tick()
            if timeout is None:
                stuck()
    t.__dict__.update(server=Server(), autoscaler=Scaler())
    got = None
    try:
        t.run_with_exceptions()
    except Boom as x:
        got = x
    c.prove('autoscaling cluster: the error of its server ends it', got is err)
    c.cover('server failed')


def not_launched(module, name, argv):
    """Clients that cannot be launched: the cluster passes on that error, also after being stopped."""
    def body(c):
        M = mod(module)
        T = mod('core.thread').Thread
        log = []
        k = getattr(M, name)
        t = k.__new__(k)
        T.__init__(t, name='x')
        err = FileNotFoundError('launcher')
        t.__dict__.update(server=Recorder('server', log), client_argv=argv)
        def launch(*a, **kw):
            raise err
        ps = [(M, n, f) for n, f in (('Popen', launch), ('load_task_env', dict)) if hasattr(M, n)]
        got = None
        with patched(*ps), Patch(Joins()):
            try:
                try:
                    t.run_with_exceptions()
                except Exception:
                    t.stop()
                    raise
            except Exception as x:
                got = x
        c.prove(f'{name}: clients that cannot be launched end it with that error', got is err, repr(got))
        c.prove(f'{name}: its server is stopped', len(where(log, 'server.stop')) == 1)
        c.cover('not launched')
    return body


def composite_stop(name):
    """Stopping a composite asks its parts to stop in the same manner, without waiting for room in a queue nobody reads."""
    def body(c):
        k = classes()[name]
        T = mod('core.thread').Thread
        log = []
        t = k.__new__(k)
        T.__init__(t, name='x')
        wait = c.choose([('no wait', None), ('wait', None)], 'wait') == 1
        timeout = mkval('int', 'timeout')
        dead = c.choose([('all run', None), ('one ended', None)], 'parts') == 1
        kids = [n for n in CHILDREN[name] if not (name == 'ClientThread' and n in ('executor', 'heartbeat'))]
        ended = kids[c.choose([(n, None) for n in kids], 'ended')] if dead else None
        d = t.__dict__
        for n in CHILDREN[name]:
            d[n] = Recorder(n, log, methods={'is_alive': (lambda n=n: n != ended)})
        class Q:
            def __init__(self, reader): self.reader = reader
            def put(self, item, block=True, timeout=None):
                c.prove(f'{name}: stopping never waits for room in a queue that nobody reads', timeout is not None or not block or ended is None or self.reader != ended)
        class Queues:
            completed, confirmed = Q('receiver'), Q(None)       # confirmations: unbounded
        if name == 'ServerThread':
            d['queue'] = Queues()
            d.update(no_confirm=False, in_memory=False)
        for n in ('queue', 'local', 'client', 'inbound', 'outbound'):
            d.setdefault(n, Recorder(n, log))
        d['clients'] = Recorder('clients', log) if name != 'SSHCluster' else [Recorder('clients', log), Recorder('clients', log)]
        j = Joins()
        with Patch(j):
            t.stop(wait=wait, timeout=timeout)
        sig = T.stop
        for n in kids:
            calls = [bind(sig, x[1], x[2], skip_self=True) for x in log if x[0] == f'{n}.stop']
            c.prove(f'{name}: each part is asked to stop once, as requested', len(calls) == 1 and calls[0]['wait'] is wait and calls[0]['timeout'] is timeout, f'{n}: {calls}')
        if name in ('RemoteCluster', 'SSHCluster'):
            c.prove(f'{name}: its clients are stopped', len(where(log, 'clients.terminate')) == (2 if name == 'SSHCluster' else 1))
        c.cover('stopped')
    return body


APIS = [('client', 'run_client', ['ClientThread'], {}), ('server', 'serve_from', ['ServerThread'], {'source': ()}), ('server', 'serve_forever', ['ServerThread'], {}),
        ('cluster.local', 'run_local', ['LocalCluster'], {}), ('cluster.remote', 'run_cluster', ['RemoteCluster', 'AutoScalingCluster'], {}),
        ('cluster.remote', 'run_cluster', ['RemoteCluster', 'AutoScalingCluster'], {'autoscaling': True}), ('cluster.ssh', 'run_ssh', ['SSHCluster'], {}),
        ('submit', 'submit_from', ['SubmitThread', 'LiveSubmitThread'], {'source': ()}), ('submit', 'submit_from', ['SubmitThread', 'LiveSubmitThread'], {'source': (), 'queue_config': Opaque('config')})]


def call(module, fn, names, kw):
    """The functions that run a component: wait for it; when it failed, stop it and pass on the very error."""
    def body(c):
        M = mod(module)
        log = []
        err = [None, Boom('x'), RuntimeError('y'), EOFError()][c.choose([('fine', None), ('Boom', None), ('RuntimeError', None), ('EOFError', None)], 'outcome')]
        def join(*a, **k):
            if err is not None:
                raise err
        fs = {n: Factory(n, log, {'join': join, 'task_count': 3}) for n in names}
        got = None
        with patched(*[(M, n, f) for n, f in fs.items()]):
            try:
                getattr(M, fn)(**kw)
            except Exception as x:
                got = x
        c.prove(f'{fn}: the error of the component is passed on', got is err, repr(got))
        made = [n for n, f in fs.items() for _ in f.made]
        c.prove(f'{fn}: one component is run and awaited', len(made) == 1 and len(where(log, f'{made[0]}.join')) == 1 and untimed(log))
        stops = where(log, f'{made[0]}.stop')
        c.prove(f'{fn}: a failed component is stopped, one that ended is not', len(stops) == (0 if err is None else 1) and all(s > where(log, f'{made[0]}.join')[0] for s in stops))
        c.cover(f'called {err is None}')
    return body


def connections(c):
    """Leaving the context of a queue connection never suppresses an error."""
    Q = mod('core.queue')
    for n in ('QueueServer', 'QueueClient'):
        k = getattr(Q, n)
        q = k.__new__(k)
        q.shutdown = lambda: None
        e = Boom('x')
        c.prove(f'{n}: errors pass through its context', not q.__exit__(Boom, e, None))
    c.cover('contexts')


def run(rep):
    rep.run('StateMachine.next', step, covers=['next', 'next halted', 'next error'])
    rep.run('StateMachine.run', loop, covers=['run step', 'run ends', 'run error', 'run error out'])
    rep.run('Thread', thread, covers=['thread fine', 'thread error'])
    rep.run('queue connections', connections, covers=['contexts'])
    for n in MACHINES:
        rep.run(n, machines(n), covers=['run', 'stop'])
    for n in COMPOSITES:
        rep.run(n, composite(n), covers=[f'{n} {k}' for k in [None] + CHILDREN[n]])
    for n, m, b in (('DatabaseCommitterThread', 'DatabaseCommitter', 'queue'), ('QueueCommitterThread', 'QueueCommitter', 'local')):
        rep.run(f'{n} failed', delivery(n, m, b), covers=['delivery failed'])
    rep.run('ServerThread waiting', server_waits, covers=[f'{a} {b}' for i, a in enumerate(PARTS[:3]) for b in PARTS[i + 1:]])
    rep.run('ClientThread waiting', client_waits, covers=[f'scheduler {b}' for b in CLIENT] + [f'executors {b}' for b in CLIENT[:2]])
    rep.run('AutoScalingCluster waiting', autoscaling_waits, covers=['server failed'])
    for m, n, a in (('cluster.remote', 'RemoteCluster', ['a', 'b']), ('cluster.ssh', 'SSHCluster', [['a'], ['b']])):
        rep.run(f'{n} not launched', not_launched(m, n, a), covers=['not launched'])
    for n in COMPOSITES:
        rep.run(f'{n}.stop', composite_stop(n), covers=['stopped'])
    for i, (m, f, ns, kw) in enumerate(APIS):
        rep.run(f'{f} {i}', call(m, f, ns, kw), covers=['called True', 'called False'])
