"""Contracts of the environment (queues, clock, database session, processes) and the driver for
cut-point proofs of finite state machines."""
import sys
import queue as _queue
import builtins
from . import core, runtime
from .core import z3, Unsupported, PathEnd, ctx
from .values import *
from .values import SymSeq, Unit, Var, Map, seqvar, veq, raw, Capture, conj

QueueEmpty, QueueFull = _queue.Empty, _queue.Full


class NullLog:
    """Logging has no effect on the properties."""
    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        return lambda *x, **k: None


class Module:
    """Attribute bag standing for an imported module or namespace."""
    def __init__(self, **k):
        self.__dict__.update(k)


class TimeModule:
    @staticmethod
    def sleep(n):
        t0 = clock_read()
        c = ctx()
        t1 = clock_read()
        z = znum(n)
        if z is None:
            raise TypeError('sleep')
        c.solver.add(t1 >= t0 + toreal(z))
        c.env.setdefault('sleeps', []).append(n)
    @staticmethod
    def time():
        return SymReal(clock_read())
    @staticmethod
    def monotonic():
        return SymReal(clock_read())
    perf_counter = monotonic


class TaskRec(Record):
    schema = {'id': 'str', 'args': 'str', 'submit_id': 'str', 'submit_time': 'time', 'submit_host': '?str',
              'server_id': '?str', 'server_host': '?str', 'schedule_time': '?time', 'client_id': '?str',
              'client_host': '?str', 'command': '?str', 'start_time': '?time', 'completion_time': '?time',
              'exit_status': '?int', 'outpath': '?str', 'errpath': '?str', 'attempt': 'int', 'retried': 'bool',
              'waited': '?int', 'duration': '?int', 'previous_id': '?str', 'next_id': '?str', 'tag': 'tag'}
    def pack(self):
        return Wrapped('pack', self.freeze())
    def to_dict(self):
        return Wrapped('to_dict', self.freeze())
    def to_json(self):
        return Wrapped('to_json', self.freeze())


def task(name='task'):
    return TaskRec(ctx().fresh_name(name))


class Source:
    """Consumer side of a queue: any producer, any timing.  get() nondeterministically times out,
    yields the end marker, or yields a fresh element made by `mk`; `received` is the ghost trace."""
    def __init__(self, name, mk, sentinel=True, received=None, on_get=None):
        self.name, self.mk, self.sentinel = name, mk, sentinel
        self.received = received
        self.on_get = on_get
        self.ended = False
        self.dones = 0
        self.gets = 0
        self.unlimited = 0          # gets that wait without time limit
        self.on_empty = None
    def get(self, block=True, timeout=None):
        c = ctx()
        if self.ended:
            raise Unsupported(f'{self.name}: get() after the end marker')
        opts = [('item', None)] + ([('end', None)] if self.sentinel else [])
        blocking = block and timeout is None
        if not blocking:
            opts.append(('empty', None))
        self.gets += 1
        self.unlimited += blocking
        k = opts[c.choose(opts, f'{self.name}.get')][0]
        c.env['last_' + self.name] = k
        clock_read()
        if k == 'empty':
            if self.on_empty:
                self.on_empty()
            raise QueueEmpty()
        if k == 'end':
            self.ended = True
            return None
        x = self.mk(c.fresh_name(self.name))
        if self.received is not None:
            self.received.append(x)
        if self.on_get:
            self.on_get(x)
        return x
    def get_nowait(self):
        return self.get(block=False)
    def task_done(self):
        self.dones += 1
    def empty(self):
        return SymBool(z3.Bool(ctx().fresh_name(f'{self.name}.empty')))
    def qsize(self):
        n = SymInt(z3.Int(ctx().fresh_name(f'{self.name}.size')))
        ctx().solver.add(n.z >= 0)
        return n
    def __getattr__(self, a):
        raise Unsupported(f'queue.{a}')


class Sink:
    """Producer side of a bounded queue: put() with a timeout may fail with Full any number of
    times; a successful put appends to the ghost trace."""
    def __init__(self, name, trace=None, snap=None, full=True):
        self.name = name
        self.trace = trace if trace is not None else SymSeq([])
        self.snap = snap or frozen
        self.full = full
        self.on_put = None
    def put(self, item, block=True, timeout=None):
        c = ctx()
        may_fail = self.full and not (block and timeout is None)
        if may_fail and c.choose([('ok', None), ('full', None)], f'{self.name}.put') == 1:
            clock_read()
            raise QueueFull()
        clock_read()
        v = self.snap(item)
        self.trace.append(v)
        if self.on_put:
            self.on_put(v)
    def put_nowait(self, item):
        self.put(item, block=False)
    def full(self):
        return SymBool(z3.Bool(ctx().fresh_name(f'{self.name}.full')))
    def __getattr__(self, a):
        raise Unsupported(f'queue.{a}')


class BundleSink(Sink):
    """Sink of bundles (lists); `flat` is the ghost concatenation of everything delivered, `bundles`
    the number delivered.  `deferred`: the queue reads the list after put() returned (in-process
    JoinableQueue), so the handed-over list must not change until `settle()`."""
    def __init__(self, name, flat, ob='bundle', full=True, deferred=False, sentinel=False):
        super().__init__(name, full=full)
        self.flat, self.ob, self.deferred, self.sentinel = flat, ob, deferred, sentinel
        self.bundles = 0
        self.times = []
        self.ends = 0
        self.refs = []
        self.snap = self._snap
    def _snap(self, item):
        c = ctx()
        if item is None and self.sentinel:
            self.ends += 1
            return None
        if not isinstance(item, (list, tuple)):
            if isinstance(item, (Sym,)) or item is None:
                c.prove(f'{self.ob}: what is delivered is a list of items', False)
            raise Unsupported(f'{self.name}: put of {type(item)}')
        s = frozen(as_seq(item))
        c.prove(f'{self.ob}: no empty bundle is delivered', s.zlen() > 0)
        self.flat.extend(s)
        self.bundles += 1
        self.times.append(c.now_last)
        if self.deferred:
            self.refs.append((item, s))
        return s
    def settle(self):
        c = ctx()
        for ref, s in self.refs:
            c.prove(f'{self.ob}: a delivered bundle is not modified afterwards', seq_eq(frozen(as_seq(ref)), s))


def packs(seq, kind='pack'):
    """Ghost: element-wise encoding of a sequence of records (current contents)."""
    out = []
    for s in as_seq(seq)._norm().segs:
        if isinstance(s, Unit):
            out.append(Unit(Wrapped(kind, s.v.freeze() if isinstance(s.v, Record) else s.v)))
        elif isinstance(s, Var):
            out.append(Map(s, [(z3.BoolVal(True), [Wrapped(kind, s.gen.freeze())])]))
        else:
            out.append(Map(s.var, [(b, [Wrapped(kind, v.freeze() if isinstance(v, Record) else v) for v in vs]) for b, vs in s.branches]))
    return SymSeq(out)


def cat(*seqs):
    out = []
    for s in seqs:
        out.extend(as_seq(s)._norm().segs)
    return SymSeq(out)


def frozen(x):
    """Contents of a value at the moment it is handed over."""
    if isinstance(x, SymSeq):
        return SymSeq([Unit(frozen(s.v)) if isinstance(s, Unit) else frozen_seg(s) for s in x._norm().segs])
    if type(x) is list:
        return SymSeq(elems=[frozen(v) for v in x])
    if isinstance(x, Record):
        return x.freeze()
    return x


def frozen_seg(s):
    if isinstance(s, Var) and isinstance(s.gen, Record) and s.gen.written():
        return Map(s, [(z3.BoolVal(True), [s.gen.freeze()])])
    return s


# ------------------------------------------------------------------------------- driver

def env_failure(e):
    """Failure injected by the environment model that the code is obliged to survive."""
    ctx().env.setdefault('env_failures', {})[id(e)] = e
    return e


def snapshot(m, skip=('state', 'actions')):
    out = {}
    for k, v in vars(m).items():
        if k in skip:
            continue
        out[k] = frozen(v) if isinstance(v, (SymSeq, Record, list)) else v
    return out


def same(a, b):
    if set(a) != set(b):
        return False
    for k in a:
        x, y = a[k], b[k]
        if x is y:
            continue
        if isinstance(x, (Sym, SymSeq)) or isinstance(y, (Sym, SymSeq)):
            try:
                r = veq(x, y)
            except (Unsupported, TypeError):
                return False
            if r is not True and not (not isinstance(r, bool) and z3.is_true(z3.simplify(r))):
                return False
        elif not (type(x) is type(y) and x == y):
            return False
    return True


def step_until(m, cuts, ghost=lambda: None, limit=40, on_step=None):
    """Run the real machine until it reaches a cut state or HALT.  A step that changes nothing
    (retry on a full or empty queue) is closed by the equality of its state with the previous one."""
    names = set(cuts)
    for i in range(limit):
        before, g0, s0 = snapshot(m), ghost(), m.state
        try:
            m.state = m.next()
        except (QueueEmpty, QueueFull) as e:
            ctx().prove('component survives a full or empty queue', False, repr(e))
        except Exception as e:
            if id(e) in ctx().env.get('env_failures', {}):
                ctx().prove('component survives a failing operation', False, repr(e))
            raise
        if on_step:
            on_step(s0, m.state)
        if not hasattr(m.state, 'name'):
            raise Unsupported(f'state {m.state!r}')
        if m.state.name == 'HALT' or m.state.name in names:
            return m.state.name
        if m.state is s0 and same(before, snapshot(m)) and (g0 is None or same(g0, ghost())):
            ctx().report.stutters = getattr(ctx().report, 'stutters', 0) + 1
            raise PathEnd('stutter step')
    raise Unsupported(f'no cut state within {limit} steps (last {m.state})')


def declare(m, names):
    """The machine has exactly the instance variables the contract speaks about."""
    extra = set(vars(m)) - set(names) - {'state', 'actions'}
    if extra:
        raise Unsupported(f'machine state outside the contract: {sorted(extra)}')


def havoc(m, **vals):
    for k, v in vals.items():
        if not (k in vars(m) or hasattr(type(m), k) or k in getattr(type(m), '__annotations__', {})):
            raise Unsupported(f'{type(m).__name__} has no variable {k!r}')
        setattr(m, k, v)


def at_state(m, name):
    s = getattr(m.states, name, None)
    if s is None:
        raise Unsupported(f'no state {name}')
    m.state = s


# ------------------------------------------------------------------------------- patching

def patch(module, **names):
    for k, v in names.items():
        if not hasattr(module, k):
            raise Unsupported(f'{module.__name__} has no global {k!r}')
        module.__dict__[k] = v


_loaded = False

def load():
    """Import the instrumented hypershell and replace clock and logging by their contracts."""
    global _loaded
    if _loaded:
        return
    from . import rewrite
    import os
    root = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'src')
    sys.path.insert(0, root)
    rewrite.install(root, runtime)
    import datetime as _dt, time as _time, importlib
    for name in ('core.fsm', 'core.config', 'core.queue', 'core.thread', 'core.template', 'core.heartbeat', 'core.signal',
                 'data.core', 'data.model', 'data', 'client', 'task', 'submit', 'server', 'config', 'cluster.local',
                 'cluster.remote', 'cluster.ssh', 'cluster'):
        importlib.import_module('hypershell.' + name)
    for name, mod in list(sys.modules.items()):
        if name.startswith('hypershell.') and name not in ('hypershell.core.logging', 'hypershell.core.exceptions'):
            for k, v in list(mod.__dict__.items()):
                if v is _dt.datetime:
                    mod.__dict__[k] = SymDatetime
                elif v is _dt.timedelta:
                    mod.__dict__[k] = SymTimedelta
                elif v is _time:
                    mod.__dict__[k] = TimeModule
                elif v is _time.sleep:
                    mod.__dict__[k] = TimeModule.sleep
                elif k == 'log':
                    mod.__dict__[k] = NullLog()
                elif k == 'write_traceback':
                    mod.__dict__[k] = lambda *a, **k: None
    M = sys.modules['hypershell.data.model']
    for cls in (M.Task, M.Client):
        for k, v in cls.columns.items():
            if v is _dt.datetime:
                cls.columns[k] = SymDatetime
    _loaded = True


def mod(name):
    load()
    return sys.modules['hypershell.' + name]


def clock_point():
    return SymTime(clock_read(), False)


# ------------------------------------------------------------------------------- call recording

class Recorder:
    """Stands for a component whose behaviour is given by its own contract; records calls."""
    def __init__(self, name, log, attrs=(), methods=None, raises=None):
        d = self.__dict__
        d['_name'], d['_log'], d['_m'] = name, log, methods or {}
        d['_sets'] = []
    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        if a in self._m:
            v = self._m[a]
            if not builtins.callable(v):
                return v
        else:
            v = None
        return _Call(f'{self._name}.{a}', self._log, v)
    def __setattr__(self, a, v):
        self._log.append((f'{self._name}.{a}=', (v,), {}))
        self._m[a] = v
    def __enter__(self):
        self._log.append((f'{self._name}.__enter__', (), {}))
        return self
    def __exit__(self, *a):
        self._log.append((f'{self._name}.__exit__', (), {}))


class _Call:
    """Attribute of a recorder: callable, with attributes of its own."""
    def __init__(self, name, log, v=None):
        self.__dict__.update(_name=name, _log=log, _v=v)
    def __call__(self, *args, **kw):
        self._log.append((self._name, args, kw))
        if self._v is not None:
            return self._v(*args, **kw)
    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        return _Call(f'{self._name}.{a}', self._log)
    def __setattr__(self, a, v):
        self._log.append((f'{self._name}.{a}=', (v,), {}))
        self.__dict__[a] = v
    def __enter__(self):
        self._log.append((f'{self._name}.__enter__', (), {}))
        return self
    def __exit__(self, *a):
        self._log.append((f'{self._name}.__exit__', (), {}))


def where(log, name, args=None):
    return [i for i, e in enumerate(log) if e[0] == name and (args is None or e[1] == args)]


def ordered(log, *names):
    """The named events each happen exactly once and in this order."""
    pos = []
    for n in names:
        w = where(log, *n) if isinstance(n, tuple) else where(log, n)
        if len(w) != 1:
            return False
        pos.append(w[0])
    return all(a < b for a, b in zip(pos, pos[1:]))


def untimed(log):
    """Every recorded join waits without time limit (a thread that is still running is not passed over)."""
    return all(not [a for a in e[1] if a is not None] and not any(v is not None for v in e[2].values())
               for e in log if e[0].endswith('.join'))


class Made(list):
    """Objects made by a Factory; using one that was never made is a violation, not an error of the contract."""
    def __init__(self, name):
        super().__init__()
        self.name = name
    def __getitem__(self, i):
        if isinstance(i, int) and not -len(self) <= i < len(self):
            ctx().prove(f'{self.name}: is created', False)
            ctx().assume(False)
        return super().__getitem__(i)


class Factory:
    """Stand-in for a class: records constructor arguments, produces Recorders."""
    def __init__(self, name, log, methods=None):
        self.name, self.log, self.methods = name, log, methods or {}
        self.made = Made(name)
    def __call__(self, *a, **k):
        self.log.append((f'{self.name}()', a, k))
        r = Recorder(self.name, self.log, methods=dict(self.methods))
        self.made.append((a, k, r))
        return r
    def new(self, *a, **k):
        self.log.append((f'{self.name}.new', a, k))
        r = Recorder(self.name, self.log, methods=dict(self.methods))
        self.made.append((a, k, r))
        return r


import inspect as _inspect

def bind(fn, args, kw, skip_self=False):
    """Arguments of a call by parameter name, defaults applied (independent of call style)."""
    sig = _inspect.signature(fn)
    if skip_self:
        ps = list(sig.parameters.values())[1:]
        sig = sig.replace(parameters=ps)
    try:
        b = sig.bind(*args, **kw)
    except TypeError as e:
        raise AssertionError(f'call does not match the signature: {e}')
    b.apply_defaults()
    return dict(b.arguments)


def exact(a, b):
    """Same object or equal value (no coercion)."""
    if a is b:
        return True
    if isinstance(a, (Sym, SymSeq)) or isinstance(b, (Sym, SymSeq)):
        return veq(a, b)
    return type(a) is type(b) and a == b


class patched:
    """Temporarily replace attributes."""
    def __init__(self, *triples):
        self.t = triples
    def __enter__(self):
        self.old = []
        for o, a, v in self.t:
            if not hasattr(o, a):
                raise Unsupported(f'{o!r} has no {a}')
            self.old.append((o, a, o.__dict__.get(a, _NO)))
            setattr(o, a, v)
        return self
    def __exit__(self, *exc):
        for o, a, v in reversed(self.old):
            if v is _NO:
                delattr(o, a)
            else:
                setattr(o, a, v)

_NO = object()


class Signals:
    """Contract of check_signal(): None until a signal arrives (at any time), then the number of the
    latest signal.  `seen` is the ghost list of values returned."""
    def __init__(self, start=None):
        import signal
        self.values = (signal.SIGUSR1, signal.SIGUSR2)
        self.cur = start
        self.seen = []
    def __call__(self):
        c = ctx()
        if self.cur is None:
            k = c.choose([('none', None), ('USR1', None), ('USR2', None)], 'signal')
            if k:
                self.cur = self.values[k - 1]
        else:
            k = c.choose([('same', None), ('other', None)], 'signal')
            if k:
                self.cur = self.values[1 - self.values.index(self.cur)]
        self.seen.append(self.cur)
        return self.cur
