"""C17: every option of `hs cluster`, `hs server` and `hs client` reaches the component it concerns.

Symbolic option values flow from the command objects through the real run/run_* functions, the real
cluster constructors and the real launch code; the constructed server, the constructed client or the
launched client command (read back through the option table of the real client command) must carry
them unchanged."""
import os as _os
import sys as _sys
from pyvc.models import *
from pyvc.core import z3
from pyvc.values import SymBool, Wrapped
from pyvc.runtime import b_str


# ------------------------------------------------------------------------------ command objects

def dest(app, flag):
    """Attribute set by the command-line flag (the flags are the public interface)."""
    a = app.interface._option_string_actions.get(flag)
    if a is None:
        raise AssertionError(f'{app.__name__}: no option {flag}')
    return a.dest


def action(app, flag):
    dest(app, flag)
    return app.interface._option_string_actions[flag]


KINDS = {int: 'int', float: 'real', None: 'text', str: 'text'}


class Text(SymStr):
    """A non-empty text."""
    def __bool__(self):
        return True


def text(name):
    return Text(z3.String(name))


def value(kind, name):
    return text(name) if kind == 'text' else mkval(kind, name)


def optional(kind, name):
    return Opt(z3.Bool(name + '_none'), value(kind, name))


def command(app, given):
    """The command as it is after parsing: one attribute per option, defaults elsewhere."""
    obj = object.__new__(app)
    for a in app.interface._actions:
        if a.dest not in ('help', 'version') and a.default != '==SUPPRESS==':
            obj.__dict__[a.dest] = a.default
    for flag, v in given.items():
        obj.__dict__[flag if not flag.startswith('-') else dest(app, flag)] = v
    return obj


class Secrets:
    """Fresh, unpredictable keys."""
    def __init__(self):
        self.made = []
    def _key(self, n=None):
        if n is not None and n < 16:
            ctx().fail(f'key of {n} bytes')
        k = text(f'secret{len(self.made)}')
        self.made.append(k)
        return k
    token_hex = token_urlsafe = _key


def split(t, comments=False, posix=True):
    import shlex
    if isinstance(t, str):
        return as_seq(shlex.split(t))
    return SymSeq([Var(f'split<{t.z}>', lambda n: SymStr(z3.String(n)))])


QUOTE = uf('shell_quote', z3.StringSort(), z3.StringSort())


def quote(t):
    z = zstr(t)
    if z is None:
        raise TypeError('quote of ' + type(t).__name__)
    return SymStr(QUOTE(z))


class Opened:
    def __init__(self, path, mode):
        self.path, self.mode = path, mode
    def __bool__(self):
        return True
    @property
    def name(self):
        return self.path


class Env:
    """Environment of one `hs cluster` run: server and client are given by their constructors."""
    def __init__(self, c):
        self.c, self.log = c, []
        self.S, self.C = mod('server'), mod('client')
        self.server = Factory('server', self.log)
        self.client = Factory('client', self.log)
        self.secrets = Secrets()
        self.procs = SymSeq([])
        self.waited = SymSeq([])
        self.envs = []
        self.hosts = None
        self.ssh_conf = {}
        self.node_args = []
        c.env['open'] = self.open
        self.files = []
    def open(self, path, mode='r', **kw):
        self.files.append(Opened(path, mode))
        return self.files[-1]
    def popen(self, argv, stdout=None, stderr=None, env=None, **kw):
        extra = set(kw) - {'bufsize', 'universal_newlines', 'text'}
        if extra:
            raise Unsupported(f'Popen with {sorted(extra)}')
        self.c.prove('cluster: the server is started before a client is launched', bool(where(self.log, 'server.start')))
        self.procs.append(Wrapped('process', as_seq(argv)))
        self.envs.append(env)
        return Proc(self, argv)


class Proc:
    pid = 4711
    def __init__(self, w, argv):
        self.w, self.argv = w, argv
    def wait(self, timeout=None):
        self.w.waited.append(Wrapped('process', as_seq(self.argv)))
        return 0
    def __getattr__(self, a):
        raise Unsupported(f'process.{a}')


ENVIRON = {'INHERITED': 'x', 'HYPERSHELL_A': 'inherited value'}


def cluster_env(c, w):
    """Patches for the modules of the cluster."""
    X, L, R, H = mod('cluster'), mod('cluster.local'), mod('cluster.remote'), mod('cluster.ssh')
    T = mod('core.thread').Thread
    exports = {'EXPORTED': Opaque('exported value'), 'HYPERSHELL_A': Opaque('own value')}
    envvars = {'HYPERSHELL_A': text('env_a'), 'HYPERSHELL_B': text('env_b')}
    ssh_conf = w.ssh_conf
    w.ssh_conf, w.exports, w.envvars = ssh_conf, exports, envvars
    hosts = SymSeq([Var('hosts', lambda n: SymStr(z3.String(n)))])
    w.hosts = hosts
    def nl(kind):
        def f(arg=None, *a, **k):
            w.node_args.append((kind, arg if not k else list(k.values())[0]))
            return hosts
        return f
    nodelist = Module(from_cmdline=nl('cmdline'), from_config=nl('config'))
    sh = Module(split=split, quote=quote)
    t = [(T, 'start', lambda self: self.run_with_exceptions()), (T, 'join', lambda self, timeout=None: w.log.append(('cluster.join', (), {'timeout': timeout}))),
         (X, 'NodeList', nodelist), (X, 'shlex', sh),
         (H, 'config', Module(ssh=ssh_conf)), (H, 'Namespace', Module(from_env=lambda p, *a: dict(envvars) if p == 'HYPERSHELL' else {})),
         (R, 'os', Module(environ=dict(ENVIRON))), (R, 'load_task_env', lambda: dict(exports)),
         (L, 'ClientThread', w.client), (L, 'set_client_standalone', lambda m: None)]
    for m in (L, R, H):
        t.append((m, 'ServerThread', w.server))
        t.append((m, 'secrets', w.secrets))
    for m in (R, H):
        t += [(m, 'shlex', sh), (m, 'Popen', w.popen)]
    return patched(*t)


SERVER = {'-b': 'bundlesize', '-w': 'bundlewait', '-r': 'max_retries', '--eager': 'eager', '--no-db': 'in_memory', '--no-confirm': 'no_confirm',
          '--forever': 'forever_mode', '--restart': 'restart_mode'}
# cluster flag -> (client flag, keyword of ClientThread)
CLIENT = {'-N': ('-N', 'num_tasks'), '-t': ('-t', 'template'), '-b': ('-b', 'bundlesize'), '-w': ('-w', 'bundlewait'), '-d': ('-d', 'delay_start'),
          '-S': ('-S', 'task_signalwait'), '-T': ('-T', 'client_timeout'), '-W': ('-W', 'task_timeout'), '-c': ('-c', 'capture'), '--no-confirm': ('--no-confirm', 'no_confirm')}
OPTIONAL = ('-T', '-W')


def options(c, mode):
    X = mod('cluster').ClusterApp
    g = {}
    for f in ('-N', '-t', '-b', '-w', '-d', '-r', '-S', '-p'):
        g[f] = value(KINDS[action(X, f).type], 'opt' + f)
    for f in OPTIONAL:
        g[f] = optional(KINDS[action(X, f).type], 'opt' + f)
    for f in ('--eager', '-c'):
        g[f] = SymBool(z3.Bool('opt' + f))
    g['--no-confirm'] = SymBool(z3.Bool('opt--no-confirm'))
    g['--no-db'] = False
    g['--forever'] = g['--restart'] = False
    k = c.choose([('db', None), ('no db', None), ('forever', None), ('restart', None)], 'mode')
    if k == 1:
        if mode == 'autoscaling':
            c.assume(False)              # rejected on the command line
        g['--no-db'] = True
    elif k == 2:
        g['--forever'] = True
    elif k == 3:
        g['--restart'] = True
    src = 'none'
    if k == 3:
        g['filepath'] = None
    else:
        src = ('stdin', 'file')[c.choose([('stdin', None), ('file', None)], 'source')]
        g['filepath'] = '-' if src == 'stdin' else text('path')
        if src == 'file':
            c.assume(g['filepath'].z != z3.StringVal('-'))
    g['-f'] = None if c.choose([('no -f', None), ('-f', None)], 'failures') == 0 else text('failures')
    return g, src


def stream_is(w, s, path, mode):
    return z3.BoolVal(False) if not isinstance(s, Opened) else conj([veq(s.path, path), z3.BoolVal(mode in s.mode)])


def check_server(c, w, g, src, mode, bind):
    c.prove(f'{mode}: one server is created', len(w.server.made) == 1)
    a, k, _ = w.server.made[0]
    kw = globals()['bind'](w.S.ServerThread.__init__, a, k, skip_self=True)
    fixed = {}
    if mode == 'autoscaling':            # documented: always with database, confirmations, and running forever
        fixed = {'--no-db': False, '--no-confirm': False, '--forever': True}
    for f, n in SERVER.items():
        if mode == 'autoscaling' and f == '--restart':
            continue                     # redundant: running forever
        want = fixed.get(f, g[f])
        c.prove(f'{mode}: {f} reaches the server', exact(kw[n], want))
    c.prove(f'{mode}: the server is bound to the requested address', conj([veq(kw['address'][0], bind[0]), veq(kw['address'][1], bind[1])]) if len(kw['address']) == 2 else False)
    if src == 'file':
        c.prove(f'{mode}: the task file is the source of the server', stream_is(w, kw['source'], g['filepath'], 'r'))
    elif src == 'stdin':
        c.prove(f'{mode}: standard input is the source of the server', kw['source'] is _sys.stdin)
    else:
        c.prove(f'{mode}: nothing is submitted on restart', kw['source'] is None or len(kw['source']) == 0)
    if g['-f'] is None:
        c.prove(f'{mode}: failures are not written unless requested', kw['redirect_failures'] is None)
    else:
        c.prove(f'{mode}: failures are written to the requested file', stream_is(w, kw['redirect_failures'], g['-f'], 'w'))
    key = kw['auth']
    c.prove(f'{mode}: the server uses a freshly generated key', any(key is s for s in w.secrets.made))
    st = where(w.log, 'server.start')
    jn = where(w.log, 'server.join')
    c.prove(f'{mode}: the server is started once and awaited', len(st) == 1 and len(jn) == 1 and st[0] < jn[0])
    c.prove(f'{mode}: nothing is awaited with a time limit', untimed(w.log))
    return key


def read_argv(argv, exe):
    """(prefix segments, flag -> token) of a client command: everything before `<exe> client`, then
    the options by the table of the real client command."""
    C = mod('client').ClientApp
    segs = as_seq(argv)._norm().segs
    at = [i for i, s in enumerate(segs) if isinstance(s, Unit) and isinstance(s.v, str) and s.v == 'client']
    if len(at) != 1 or at[0] == 0:
        raise AssertionError('not a client command')
    i = at[0]
    got = {}
    j = i + 1
    while j < len(segs):
        s = segs[j]
        if not isinstance(s, Unit) or not isinstance(s.v, str):
            raise Unsupported(f'client option not readable: {s!r}')
        a = C.interface._option_string_actions.get(s.v)
        if a is None:
            raise AssertionError(f'client has no option {s.v}')
        if a.dest in got:
            raise AssertionError(f'client option {s.v} given twice')
        if a.nargs == 0:
            got[a.dest] = True
            j += 1
        else:
            if j + 1 >= len(segs) or not isinstance(segs[j + 1], Unit):
                raise Unsupported(f'value of {s.v}')
            got[a.dest] = segs[j + 1].v
            j += 2
    return segs[:i], got


def check_argv(c, g, mode, argv, prefix, key, quoted=False):
    C, X = mod('client').ClientApp, mod('cluster').ClusterApp
    pre, got = read_argv(argv, None)
    c.prove(f'{mode}: the client is launched as launcher, its arguments, remote program', seq_eq(SymSeq(pre), SymSeq(prefix)))
    def tok(v):
        return QUOTE(zstr(v)) if quoted else zstr(v)
    for f, (cf, n) in CLIENT.items():
        a = action(C, cf)
        t = got.pop(a.dest, None)
        v = g[f]
        if mode == 'autoscaling' and f == '--no-confirm':
            c.prove(f'{mode}: clients confirm, as the server expects', t is None)
        elif f in OPTIONAL:
            if t is None:
                c.prove(f'{mode}: {f} is passed to the client when set', v.null)
                c.prove(f'{mode}: default of {cf} is no limit unless configured', action(C, cf).default == action(X, f).default)
            else:
                c.prove(f'{mode}: {f} is passed to the client only when set', z3.Not(v.null))
                c.prove(f'{mode}: {f} reaches the client', veq(t, b_str(v.v)))
                c.prove(f'{mode}: {f} keeps its type', a.type is action(X, f).type)
        elif isinstance(v, SymBool):
            c.prove(f'{mode}: {f} reaches the client', v == (t is True))
        else:
            c.prove(f'{mode}: {f} reaches the client', t is not None)
            z = zstr(t)
            want = b_str(v)
            if quoted and a.type in (None, str):
                want = SymStr(QUOTE(zstr(want)))
            c.prove(f'{mode}: {f} reaches the client unchanged', z is not None and veq(t, want))
            c.prove(f'{mode}: {f} keeps its type', a.type is action(X, f).type)
    from hypershell.core.logging import HOSTNAME
    c.prove(f'{mode}: the client connects to the host of the server', exact(got.pop(dest(C, '-H'), None), HOSTNAME))
    c.prove(f'{mode}: the client connects to the port of the server', veq(got.pop(dest(C, '-p'), None), b_str(g['-p'])))
    c.prove(f'{mode}: server and client share the key', got.pop(dest(C, '-k'), None) is key)
    c.prove(f'{mode}: no further client option is set', not got)


def app_run(c, mode, extra):
    w = Env(c)
    g, src = options(c, mode)
    given = dict(g)
    given.update(extra(c, w, g) or {})
    X = mod('cluster').ClusterApp
    with cluster_env(c, w):
        app = command(X, given)
        app.run()
    c.cover(f'{mode} ran')
    c.prove(f'{mode}: exactly one key is generated', len(w.secrets.made) == 1)
    return w, g, src, given


def local(c):
    def extra(c, w, g):
        e = {}
        for f in ('-o', '-e'):
            e[f] = None if c.choose([('default', None), ('path', None)], f) == 0 else text('path' + f)
        return e
    w, g, src, given = app_run(c, 'local', extra)
    Q = mod('core.queue').QueueConfig
    key = check_server(c, w, g, src, 'local', (Q.host, g['-p']))
    c.prove('local: one client is created', len(w.client.made) == 1)
    a, k, _ = w.client.made[0]
    kw = bind(w.C.ClientThread.__init__, a, k, skip_self=True)
    for f, (cf, n) in CLIENT.items():
        c.prove(f'local: {f} reaches the client', exact(kw[n], g[f]))
    c.prove('local: the client connects to the address of the server', conj([veq(kw['address'][0], Q.host), veq(kw['address'][1], g['-p'])]))
    c.prove('local: server and client share the key', kw['auth'] is key)
    for f, n, std in (('-o', 'redirect_output', _sys.stdout), ('-e', 'redirect_errors', _sys.stderr)):
        c.prove(f'local: {f} reaches the client', kw[n] is std if given[f] is None else stream_is(w, kw[n], given[f], 'w'))
    c.prove('local: server, then client, then both are awaited', ordered(w.log, 'server.start', 'client.start', 'client.join') and ordered(w.log, 'server.start', 'server.join'))
    c.prove('local: no other process is launched', not w.procs.segs)


def launched(c, w, mode, seq):
    c.prove(f'{mode}: every client command is launched once, in order', seq_eq(w.procs, seq))
    c.prove(f'{mode}: every launched client is awaited', seq_eq(w.waited, seq))


def env_ok(c, w, mode, e):
    want = {**ENVIRON, **w.exports}
    c.prove(f'{mode}: clients inherit the environment and the configured exports', e is not None and set(e) == set(want) and all(exact(e[k], want[k]) is not False for k in want))
    c.prove(f'{mode}: exports take precedence', conj([veq(e[k], want[k]) for k in w.exports]))


def remote(c, mode):
    def extra(c, w, g):
        e = {'--remote-exe': text('exe')}
        if mode == 'launch':
            e['--launcher'] = text('launcher')
        else:
            e['--mpi'] = True
        return e
    w, g, src, given = app_run(c, mode, extra)
    key = check_server(c, w, g, src, mode, ('0.0.0.0', g['-p']))
    c.prove(f'{mode}: one launch', w.procs.concrete and len(w.procs) == 1)
    argv = w.procs.segs[0].v.value
    prefix = (split(given['--launcher']).segs if mode == 'launch' else [Unit('mpirun')]) + [Unit(given['--remote-exe'])]
    check_argv(c, g, mode, argv, prefix, key)
    launched(c, w, mode, SymSeq([Unit(Wrapped('process', as_seq(argv)))]))
    env_ok(c, w, mode, w.envs[0])


def ssh(c):
    def extra(c, w, g):
        e = {'--remote-exe': text('exe')}
        k = c.choose([('hosts', None), ('default', None), ('group', None)], 'nodelist')
        e['--ssh'] = '<default>' if k else text('nodes')
        if not k:
            c.assume(e['--ssh'].z != z3.StringVal('<default>'))
        e['--ssh-group'] = text('group') if k == 2 else None
        e['--env'] = c.choose([('no --env', None), ('--env', None)], 'export') == 1
        k = c.choose([('no args', None), ('configured', None), ('given', None)], 'ssh-args')
        e['--ssh-args'] = text('ssh_args') if k == 2 else ''
        if k:
            w.ssh_conf['args'] = text('conf_ssh_args')
        return e
    w, g, src, given = app_run(c, 'ssh', extra)
    key = check_server(c, w, g, src, 'ssh', ('0.0.0.0', g['-p']))
    kind, arg = w.node_args[0] if len(w.node_args) == 1 else (None, None)
    c.prove('ssh: the host list is read once', kind is not None)
    if given['--ssh-group'] is not None:
        c.prove('ssh: hosts of the requested group', kind == 'config' and arg is given['--ssh-group'])
    elif given['--ssh'] == '<default>':
        c.prove('ssh: configured hosts by default', arg is None)
    else:
        c.prove('ssh: the requested hosts', kind == 'cmdline' and arg is given['--ssh'])
    segs = w.procs._norm().segs
    c.prove('ssh: one client per requested host, in order', len(segs) == 1 and isinstance(segs[0], Map) and segs[0].var is w.hosts.segs[0]
            and all(len(vs) == 1 for b, vs in segs[0].branches))
    for b, vs in segs[0].branches:
        c.assume(b)
        argv = vs[0].value
        host = segs[0].var.gen
        if given['--ssh-args']:
            args = split(given['--ssh-args']).segs
        else:
            args = split(w.ssh_conf['args']).segs if 'args' in w.ssh_conf else []
        pre, got = read_argv(argv, None)
        head = [Unit('ssh')] + args + [Unit(host)]
        exe = [Unit(given['--remote-exe'])]
        if given['--env']:
            n = len(w.envvars)
            mid = pre[len(pre) - 1 - n:len(pre) - 1]
            def same(s, k):
                return isinstance(s, Unit) and zstr(s.v) is not None and not c.feasible(zstr(s.v) != z3.Concat(z3.StringVal(k + '='), QUOTE(w.envvars[k].z)))
            c.prove('ssh: every exported variable precedes the remote program, quoted for the remote shell',
                    len(mid) == n and all(any(same(s, k) for s in mid) for k in w.envvars))
            head = head + mid
        check_argv(c, g, 'ssh', argv, head + exe, key, quoted=True)
    launched(c, w, 'ssh', w.procs)
    c.prove('ssh: every client is awaited', seq_eq(w.waited, w.procs))


def autoscaling(c):
    names = {'-A': 'policy', '-F': 'factor', '-P': 'period', '-X': 'min_size', '-Y': 'max_size', '-I': 'init_size'}
    R = mod('cluster.remote')
    X = mod('cluster').ClusterApp
    made = []
    def extra(c, w, g):
        e = {'--remote-exe': text('exe')}
        for f in names:
            e[f] = value(KINDS[action(X, f).type], 'opt' + f)
        e['--launcher'] = text('launcher') if c.choose([('no launcher', None), ('launcher', None)], 'launcher') else None
        class Scaler(Factory):
            pass
        w.scaler = Factory('autoscaler', w.log)
        return e
    w0 = {}
    def run():
        w = Env(c)
        g, src = options(c, 'autoscaling')
        given = dict(g)
        given.update(extra(c, w, g))
        with cluster_env(c, w), patched((R, 'AutoScalerThread', w.scaler)):
            command(X, given).run()
        return w, g, src, given
    sig = R.AutoScalerThread.__init__
    w, g, src, given = run()
    c.cover('autoscaling ran')
    c.prove('autoscaling: exactly one key is generated', len(w.secrets.made) == 1)
    key = check_server(c, w, g, src, 'autoscaling', ('0.0.0.0', g['-p']))
    c.prove('autoscaling: one autoscaler', len(w.scaler.made) == 1)
    a, k, _ = w.scaler.made[0]
    kw = bind(sig, a, k, skip_self=True)
    for f, n in names.items():
        c.prove(f'autoscaling: {f} reaches the autoscaler', exact(kw[n], given[f]))
    prefix = (split(given['--launcher']).segs if given['--launcher'] is not None else []) + [Unit(given['--remote-exe'])]
    check_argv(c, g, 'autoscaling', kw['launcher'], prefix, key)
    c.prove('autoscaling: the server is started before the autoscaler; both are awaited',
            ordered(w.log, 'server.start', 'autoscaler.start', 'autoscaler.join') and ordered(w.log, 'server.start', 'server.join'))


def scaler_thread(c):
    """AutoScalerThread hands its parameters to the machine."""
    R = mod('cluster.remote')
    F = Factory('machine', [])
    sig = R.AutoScaler.__init__
    vals = {'policy': text('policy'), 'factor': mkval('real', 'factor'), 'period': mkval('int', 'period'), 'init_size': mkval('int', 'init'),
            'min_size': mkval('int', 'min'), 'max_size': mkval('int', 'max')}
    launcher = SymSeq([Var('argv', lambda n: SymStr(z3.String(n)))])
    with patched((R, 'AutoScaler', F)):
        t = R.AutoScalerThread(launcher, **vals)
    a, k, m = F.made[0]
    kw = bind(sig, a, k, skip_self=True)
    c.prove('AutoScalerThread: one machine with the given parameters', len(F.made) == 1 and kw['launcher'] is launcher and all(kw[n] is v for n, v in vals.items()))
    t.run_with_exceptions()
    c.prove('AutoScalerThread: runs its machine', len(where(F.log, 'machine.run')) == 1)
    with patched((R, 'AutoScalerPolicy', Module(from_name=lambda n: ('policy', n)))):
        m = R.AutoScaler(launcher, **vals)
    c.prove('AutoScaler: keeps its parameters', m.policy == ('policy', vals['policy']) and m.launcher is launcher and all(getattr(m, n) is vals[n] for n in vals if n not in ('policy',)))
    c.prove('AutoScaler: no client at first', len(m.clients) == 0)


def api(c, mode):
    """Constructors used as a library: launcher arguments, several hosts, host list required."""
    w = Env(c)
    R, H = mod('cluster.remote'), mod('cluster.ssh')
    l, exe, tpl = text('launcher'), text('exe'), text('template')
    args = [text('arg0'), text('arg1')]
    bind_ = (text('bindhost'), mkval('int', 'port'))
    with cluster_env(c, w), patched((R, 'AutoScalerThread', Factory('autoscaler', w.log))):
        if mode == 'ssh':
            t = H.SSHCluster(nodelist=w.hosts, launcher=l, launcher_args=args, remote_exe=exe, template=tpl, bind=bind_)
            argv = [s for s in as_seq(t.client_argv)._norm().segs]
            c.prove('SSHCluster: one command per host', len(argv) == 1 and isinstance(argv[0], Map) and argv[0].var is w.hosts.segs[0])
            b, vs = argv[0].branches[0]
            pre, got = read_argv(vs[0], None)
            want = split(l).segs + [Unit(a) for a in args] + [Unit(argv[0].var.gen), Unit(exe)]
        else:
            cls = R.RemoteCluster if mode == 'remote' else R.AutoScalingCluster
            t = cls(launcher=l, launcher_args=args, remote_exe=exe, template=tpl, bind=bind_)
            a = t.client_argv if mode == 'remote' else R.AutoScalerThread.made[0]
            if mode != 'remote':
                a = (list(a[0]) + list(a[1].values()))[0]
            pre, got = read_argv(a, None)
            want = split(l).segs + split(args[0]).segs + split(args[1]).segs + [Unit(exe)]
    c.prove(f'{mode}: launcher and its arguments in order, then the remote program', seq_eq(SymSeq(pre), SymSeq(want)))
    a, k, _ = w.server.made[0]
    kw = bind(w.S.ServerThread.__init__, a, k, skip_self=True)
    c.prove(f'{mode}: the given bind address', conj([veq(kw['address'][0], bind_[0]), veq(kw['address'][1], bind_[1])]))


# ------------------------------------------------------------------------------- client, server

def client_app(c):
    """`hs client` options reach ClientThread."""
    C = mod('client')
    A = C.ClientApp
    g = {}
    for f in ('-N', '-H', '-p', '-k', '-t', '-b', '-w', '-d', '-S'):
        g[f] = value(KINDS[action(A, f).type], 'opt' + f)
    for f in OPTIONAL:
        g[f] = optional(KINDS[action(A, f).type], 'opt' + f)
        c.assume(z3.Or(g[f].null, g[f].v.z > 0))           # others are rejected
    g['--no-confirm'] = SymBool(z3.Bool('no_confirm'))
    cap = c.choose([('plain', None), ('capture', None), ('redirect', None)], 'output')
    g['-c'] = cap == 1
    for f in ('-o', '-e'):
        g[f] = text('path' + f) if cap == 2 else None
    w = Env(c)
    F = Factory('client', w.log)
    rate = mkval('int', 'heartrate')
    sig = C.ClientThread.__init__
    with patched((C, 'ClientThread', F), (C, 'config', Module(client=Module(heartrate=rate)))):
        app = command(A, g)
        app.run()
    c.cover('client ran')
    c.prove('client command: one client', len(F.made) == 1)
    a, k, _ = F.made[0]
    kw = bind(sig, a, k, skip_self=True)
    for f, n in {**{x[0]: x[1] for x in CLIENT.values()}, '-k': 'auth'}.items():
        c.prove(f'client command: {f} reaches the client', exact(kw[n], g[f]))
    c.prove('client command: connects to the given address', conj([veq(kw['address'][0], g['-H']), veq(kw['address'][1], g['-p'])]))
    c.prove('client command: configured heartrate', kw['heartrate'] is rate)
    for f, n, std in (('-o', 'redirect_output', _sys.stdout), ('-e', 'redirect_errors', _sys.stderr)):
        c.prove(f'client command: {f} reaches the client', kw[n] is std if g[f] is None else stream_is(w, kw[n], g[f], 'w'))
    c.prove('client command: awaits the client', len(where(w.log, 'client.join')) == 1 and untimed(w.log))


def client_parts(c):
    """ClientThread options reach its components."""
    C = mod('client')
    log = []
    names = ('QueueClient', 'QueueConfig', 'ClientSchedulerThread', 'ClientCollectorThread', 'ClientHeartbeatThread', 'TaskThread')
    F = {n: Factory(n, log) for n in names}
    sig = {n: getattr(C, n) for n in names}
    v = {'num_tasks': mkval('int', 'num_tasks'), 'bundlesize': mkval('int', 'bundlesize'), 'bundlewait': mkval('int', 'bundlewait'), 'auth': text('auth'),
         'template': text('template'), 'redirect_output': Opaque('out'), 'redirect_errors': Opaque('err'), 'heartrate': mkval('int', 'heartrate'),
         'capture': SymBool(z3.Bool('capture')), 'delay_start': mkval('real', 'delay'), 'no_confirm': SymBool(z3.Bool('noconf')),
         'client_timeout': optional('int', 'ct'), 'task_timeout': optional('int', 'tt'), 'task_signalwait': mkval('int', 'sw')}
    c.assume(v['num_tasks'].z >= 1)
    addr = (text('host'), mkval('int', 'port'))
    qs = []
    with patched(*[(C, n, f) for n, f in F.items()], (C, 'Queue', lambda *a, **k: qs.append(Opaque(f'queue{len(qs)}')) or qs[-1])):
        t = C.ClientThread(address=addr, **v)
    def args(n):
        c.prove(f'ClientThread: one {n}', len(F[n].made) == 1)
        a, k, r = F[n].made[0]
        return bind(sig[n].__init__, a, k, skip_self=True), r
    q, cfg = args('QueueConfig')
    c.prove('ClientThread: connects to the given address with the given key', conj([veq(q['host'], addr[0]), veq(q['port'], addr[1]), z3.BoolVal(q['auth'] is v['auth'])]))
    a, k, conn = F['QueueClient'].made[0]
    c.prove('ClientThread: connection uses that configuration', (list(a) + list(k.values())) == [cfg] or (list(a) + list(k.values()))[0] is cfg)
    for n, m in (('ClientSchedulerThread', {'no_confirm': 'no_confirm', 'timeout': 'client_timeout'}), ('ClientCollectorThread', {'bundlesize': 'bundlesize', 'bundlewait': 'bundlewait'}),
                 ('ClientHeartbeatThread', {'heartrate': 'heartrate'}),
                 ('TaskThread', {'template': 'template', 'capture': 'capture', 'redirect_output': 'redirect_output', 'redirect_errors': 'redirect_errors', 'timeout': 'task_timeout', 'signalwait': 'task_signalwait'})):
        kw, r = args(n)
        for x, y in m.items():
            c.prove(f'ClientThread: {y} reaches {n}', exact(kw[x], v[y]))
    c.prove('ClientThread: one executor per requested task slot', as_seq(t.executors).zlen() == v['num_tasks'].z)


def client_threads(c):
    """The threads of a client hand their options to their machines."""
    C = mod('client')
    q, l, o = Opaque('queue'), Opaque('local'), Opaque('outbound')
    tests = [
        ('ClientSchedulerThread', 'ClientScheduler', {'queue': q, 'local': l, 'no_confirm': SymBool(z3.Bool('nc')), 'timeout': optional('int', 'ct')}),
        ('ClientCollectorThread', 'ClientCollector', {'queue': q, 'local': l, 'bundlesize': mkval('int', 'bs'), 'bundlewait': mkval('int', 'bw')}),
        ('ClientHeartbeatThread', 'ClientHeartbeat', {'queue': q, 'heartrate': mkval('int', 'hr')}),
        ('TaskThread', 'TaskExecutor', {'id': mkval('int', 'id'), 'inbound': l, 'outbound': o, 'template': text('template'), 'capture': SymBool(z3.Bool('cap')), 'redirect_output': Opaque('out'),
                                        'redirect_errors': Opaque('err'), 'timeout': optional('int', 'tt'), 'signalwait': mkval('int', 'sw')}),
    ]
    for tn, mn, kw in tests:
        sig = getattr(C, mn).__init__
        F = Factory('machine', [])
        with patched((C, mn, F)):
            t = getattr(C, tn)(**kw)
        c.prove(f'{tn}: one machine', len(F.made) == 1)
        a, k, m = F.made[0]
        got = bind(sig, a, k, skip_self=True)
        for n, v in kw.items():
            c.prove(f'{tn}: {n} reaches its machine', exact(got[n], v))
        t.run_with_exceptions()
        c.prove(f'{tn}: runs its machine', len(where(F.log, 'machine.run')) == 1)


def server_app(c):
    """`hs server` options reach ServerThread."""
    S = mod('server')
    A = S.ServerApp
    g = {}
    for f in ('-b', '-w', '-r', '-H', '-p', '-k'):
        g[f] = value(KINDS[action(A, f).type], 'opt' + f)
    for f in ('--eager', '--no-db', '--no-confirm'):
        g[f] = SymBool(z3.Bool('opt' + f))
    mode = c.choose([('stdin', None), ('file', None), ('forever', None), ('restart', None)], 'mode')
    g['--forever'], g['--restart'] = mode == 2, mode == 3
    g['filepath'] = {0: '-', 1: text('path')}.get(mode)
    if mode == 1:
        c.assume(g['filepath'].z != z3.StringVal('-'))
    k = c.choose([('none', None), ('file', None), ('-', None), ('print', None)], 'failures')
    g['-f'] = {1: text('failures'), 2: '-'}.get(k)
    if k == 1:
        c.assume(g['-f'].z != z3.StringVal('-'))
    g['--print'] = k == 3
    w = Env(c)
    F = Factory('server', w.log)
    evict = mkval('int', 'evict')
    sig = S.ServerThread.__init__
    with patched((S, 'ServerThread', F), (S, 'config', Module(server=Module(evict=evict)))):
        command(A, g).run()
    c.cover('server ran')
    c.prove('server command: one server', len(F.made) == 1)
    a, kk, _ = F.made[0]
    kw = bind(sig, a, kk, skip_self=True)
    for f, n in {**SERVER, '-k': 'auth'}.items():
        if mode == 2 and f == '-w':
            continue                                       # nothing is submitted when running forever
        c.prove(f'server command: {f} reaches the server', exact(kw[n], g[f]))
    c.prove('server command: bound to the given address', conj([veq(kw['address'][0], g['-H']), veq(kw['address'][1], g['-p'])]))
    c.prove('server command: configured eviction period', kw['evict_after'] is evict)
    if mode == 0:
        c.prove('server command: submits standard input', kw['source'] is _sys.stdin)
    elif mode == 1:
        c.prove('server command: submits the given file', stream_is(w, kw['source'], g['filepath'], 'r'))
    else:
        c.prove('server command: submits nothing', kw['source'] is None or len(kw['source']) == 0)
    f = kw['redirect_failures']
    c.prove('server command: failures stream', {0: lambda: f is None, 1: lambda: stream_is(w, f, g['-f'], 'w'), 2: lambda: f is _sys.stdout, 3: lambda: f is _sys.stdout}[k]())
    c.prove('server command: awaits the server', len(where(w.log, 'server.join')) == 1 and untimed(w.log))


def server_file(c):
    """serve_file passes its options on."""
    S = mod('server')
    w = Env(c)
    F = Factory('server', w.log)
    sig = S.ServerThread.__init__
    v = {n: mkval('int', n) for n in ('bundlesize', 'bundlewait', 'max_retries', 'evict_after')}
    v.update({n: SymBool(z3.Bool(n)) for n in ('in_memory', 'no_confirm', 'eager')})
    v.update(auth=text('auth'), address=(text('host'), mkval('int', 'port')), redirect_failures=Opaque('failures'))
    class File:
        def __enter__(self): return self
        def __exit__(self, *a): pass
        def __bool__(self): return True
    fl = File()
    paths = []
    c.env['open'] = lambda p, *a, **k: paths.append(p) or fl
    path = text('path')
    with patched((S, 'ServerThread', F)):
        S.serve_file(path, **v)
    c.prove('serve_file: one server is created', len(F.made) == 1)
    if len(F.made) != 1:
        return
    a, kk, _ = F.made[0]
    kw = bind(sig, a, kk, skip_self=True)
    c.prove('serve_file: the lines of the file are the source', kw['source'] is fl and paths == [path] and len(F.made) == 1)
    for n, x in v.items():
        c.prove(f'serve_file: {n} reaches the server', kw[n] is x if n != 'address' else conj([veq(p, q) for p, q in zip(kw[n], x)]))
    c.prove('serve_file: neither restart nor forever', kw['restart_mode'] is False and kw['forever_mode'] is False)


def server_parts(c):
    """ServerThread options reach its components."""
    S = mod('server')
    log = []
    names = ('SchedulerThread', 'SubmitThread', 'LiveSubmitThread', 'ConfirmThread', 'ReceiverThread', 'HeartMonitorThread', 'QueueServer', 'QueueConfig')
    F = {n: Factory(n, log) for n in names}
    sig = {n: getattr(S, n) for n in names}
    v = {n: mkval('int', n) for n in ('bundlesize', 'bundlewait', 'max_retries', 'evict_after')}
    v.update({n: SymBool(z3.Bool(n)) for n in ('forever_mode', 'restart_mode', 'eager')})
    f, addr, auth = Opaque('failures'), (text('host'), mkval('int', 'port')), text('auth')
    mem = c.choose([('db', None), ('in memory', None)], 'mode') == 1
    nc = c.choose([('confirm', None), ('no confirm', None)], 'confirm') == 1
    src = c.choose([('source', None), ('no source', None)], 'source') == 0
    lines = ['a line']
    size = mkval('int', 'queuesize')
    with patched(*[(S, n, x) for n, x in F.items()], (S, 'DATABASE_ENABLED', True), (S, 'config', Module(server=Module(queuesize=size)))):
        S.ServerThread(source=lines if src else None, in_memory=mem, no_confirm=nc, address=addr, auth=auth, redirect_failures=f, **v)
    def args(n):
        c.prove(f'ServerThread: one {n}', len(F[n].made) == 1)
        a, k, r = F[n].made[0]
        return bind(sig[n].__init__, a, k, skip_self=True), r
    q, cfg = args('QueueConfig')
    c.prove('ServerThread: bound to the given address with the given key', conj([veq(q['host'], addr[0]), veq(q['port'], addr[1]), z3.BoolVal(q['auth'] is auth)]))
    c.prove('ServerThread: configured queue size', q['size'] is size)
    a, k, conn = F['QueueServer'].made[0]
    c.prove('ServerThread: queues use that configuration', (list(a) + list(k.values()))[0] is cfg)
    if not mem:
        kw, _ = args('SchedulerThread')
        for n in ('bundlesize', 'eager', 'forever_mode', 'restart_mode'):
            c.prove(f'ServerThread: {n} reaches the scheduler', exact(kw[n], v[n]))
        c.prove('ServerThread: one attempt more than retries', veq(kw['attempts'], v['max_retries'] + 1))
    else:
        c.prove('ServerThread: no scheduler without a database', not F['SchedulerThread'].made)
    n = 'LiveSubmitThread' if mem else 'SubmitThread'
    if src:
        kw, _ = args(n)
        c.prove('ServerThread: the source is submitted with the requested bundles', conj([z3.BoolVal(kw['source'] is lines), exact(kw['bundlesize'], v['bundlesize']), exact(kw['bundlewait'], v['bundlewait'])]))
        if mem:
            c.prove('ServerThread: submitted to its own queue', kw['queue_config'] is cfg)
    kw, _ = args('ReceiverThread')
    c.prove('ServerThread: failures stream and mode reach the receiver', kw['redirect_failures'] is f and kw['in_memory'] is mem)
    kw, _ = args('HeartMonitorThread')
    c.prove('ServerThread: eviction period and modes reach the monitor', exact(kw['evict_after'], v['evict_after']) if kw['in_memory'] is mem and kw['no_confirm'] is nc else False)
    c.prove('ServerThread: confirmations unless disabled', len(F['ConfirmThread'].made) == (0 if nc else 1))


def table(c):
    """The option tables: type, default and destination of every flag of the three commands."""
    X, C, S = mod('cluster').ClusterApp, mod('client').ClientApp, mod('server').ServerApp
    for app, flags in ((X, {'-N': int, '-p': int, '-b': int, '-w': int, '-r': int, '-d': float, '-T': int, '-W': int, '-S': int, '-F': float, '-P': int, '-I': int, '-X': int, '-Y': int,
                            '-t': None, '-f': None, '-o': None, '-e': None, '--ssh': None, '--launcher': None, '--ssh-args': None, '--ssh-group': None, '--remote-exe': None, '-A': None}),
                       (C, {'-N': int, '-p': int, '-b': int, '-w': int, '-d': float, '-T': int, '-W': int, '-S': int, '-t': None, '-H': None, '-k': None, '-o': None, '-e': None}),
                       (S, {'-b': int, '-w': int, '-r': int, '-p': int, '-H': None, '-k': None, '-f': None})):
        for f, t in flags.items():
            a = action(app, f)
            c.prove(f'{app.__name__}: {f} takes one value of its type', (a.type is t or (t is None and a.type is str)) and a.nargs in (None, '?'))
        ds = [action(app, f).dest for f in flags]
        c.prove(f'{app.__name__}: every flag has its own destination', len(set(ds)) == len(ds))
    for app, flags in ((X, ('--eager', '--no-db', '--initdb', '--no-confirm', '--forever', '--restart', '--mpi', '-E', '-c')), (C, ('--no-confirm', '-c')), (S, ('--eager', '--no-db', '--no-confirm', '--forever', '--restart', '--print'))):
        for f in flags:
            a = action(app, f)
            c.prove(f'{app.__name__}: {f} is a switch turned on when given', a.nargs == 0 and a.const is True)
        ds = [action(app, f).dest for f in flags]
        c.prove(f'{app.__name__}: every switch has its own destination', len(set(ds)) == len(ds))
    for app, pairs in ((X, {'-N': '--num-tasks', '-t': '--template', '-p': '--port', '-b': '--bundlesize', '-w': '--bundlewait', '-r': '--max-retries', '-E': '--env', '-d': '--delay-start', '-c': '--capture',
                            '-o': '--output', '-e': '--errors', '-f': '--failures', '-T': '--timeout', '-W': '--task-timeout', '-S': '--signalwait', '-A': '--autoscaling', '-F': '--factor', '-P': '--period',
                            '-I': '--init-size', '-X': '--min-size', '-Y': '--max-size'}),
                       (C, {'-N': '--num-tasks', '-t': '--template', '-p': '--port', '-H': '--host', '-k': '--auth', '-b': '--bundlesize', '-w': '--bundlewait', '-d': '--delay-start', '-c': '--capture',
                            '-o': '--output', '-e': '--errors', '-T': '--timeout', '-W': '--task-timeout'}),
                       (S, {'-H': '--bind', '-p': '--port', '-k': '--auth', '-b': '--bundlesize', '-w': '--bundlewait', '-r': '--max-retries', '-f': '--failures'})):
        for s, l in pairs.items():
            c.prove(f'{app.__name__}: {s} and {l} are the same option', action(app, s) is action(app, l))


def run(rep):
    rep.max_paths = 20000
    rep.run('option tables', table)
    rep.run('ClusterApp local', local, covers=['local ran'])
    rep.run('ClusterApp --launcher', lambda c: remote(c, 'launch'), covers=['launch ran'])
    rep.run('ClusterApp --mpi', lambda c: remote(c, 'mpi'), covers=['mpi ran'])
    rep.run('ClusterApp --ssh', ssh, covers=['ssh ran'])
    rep.run('ClusterApp --autoscaling', autoscaling, covers=['autoscaling ran'])
    rep.run('AutoScalerThread', scaler_thread)
    for m in ('remote', 'ssh', 'autoscaling'):
        rep.run(f'{m} constructor', lambda c, m=m: api(c, m))
    rep.run('ClientApp', client_app, covers=['client ran'])
    rep.run('ClientThread', client_parts)
    rep.run('client threads', client_threads)
    rep.run('ServerApp', server_app, covers=['server ran'])
    rep.run('serve_file', server_file)
    rep.run('ServerThread', server_parts)
