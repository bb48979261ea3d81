"""C34: contradictory options are refused before anything happens; errors end a command with a message and nonzero status.
  ClientApp, ServerApp, ClusterApp   entered and run as cmdkit does, with arbitrary options: refused exactly when contradictory, and then nothing was opened, prepared or started
  every command                      the first entry of its `exceptions` that matches (cmdkit's rule) returns the status and writes the message, for every error and text
  main, command tables, signals, logging levels
cmdkit's Application.main (catching, `isinstance` in the order of the mapping) and argparse are assumed contracts."""
import socket
import functools
from pyvc.models import *
from pyvc.core import z3
from pyvc.values import SymBool, SymStr, Sym, mkval, veq, conj
from pyvc.runtime import concat
from contracts.c23 import classes  # noqa: enumerates the package

S = z3.StringSort()


def text(name):
    return SymStr(z3.String(name))


def given(s):
    return s.z != z3.StringVal('')


class Stream:
    def __init__(self, what): self.what, self.closed = what, 0
    def close(self): self.closed += 1
    def flush(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def __iter__(self): raise Unsupported('reads its file')


class Run:
    """What a command does to the outside: files opened, database prepared, components run."""
    def __init__(self, c):
        self.c, self.log, self.opened = c, [], []
        c.env['open'] = self.open
    def open(self, path, mode='r', *a, **k):
        s = Stream((path, mode))
        self.opened.append(s)
        return s
    def act(self, name):
        def f(*a, **k):
            self.log.append((name, a, k))
        return f
    def idle(self):
        return not self.log and not self.opened


def execute(app, argument_error):
    """The part of cmdkit's main that enters and runs the command."""
    try:
        with app:
            app.run()
    except argument_error as e:
        return e
    return None


def optional_int(c, name):
    return None if c.choose([('absent', None), ('given', None)], name) == 0 else mkval('int', name)


def verdict(c, who, refused, bad, r):
    """bad: z3 formula of the contradictory combinations."""
    if refused is not None:
        c.prove(f'{who}: only contradictory options are refused', bad, f'{refused}')
        c.prove(f'{who}: nothing is opened, prepared or started when it refuses its options', r.idle(), f'{r.log} {[s.what for s in r.opened]}')
        c.prove(f'{who}: a refusal says why', len(str(refused)) > 0)
        c.cover('refused')
    else:
        c.prove(f'{who}: contradictory options are refused', z3.Not(bad))
        c.cover('accepted')


def client(c):
    M = mod('client')
    r = Run(c)
    app = object.__new__(M.ClientApp)
    out, err = text('output'), text('errors')
    cap = mkval('bool', 'capture')
    ct, tt = optional_int(c, 'timeout'), optional_int(c, 'task timeout')
    app.__dict__.update(capture=cap, output_path=out, errors_path=err, client_timeout=ct, task_timeout=tt)
    std = {n: Stream(n) for n in ('stdin', 'stdout', 'stderr')}
    with patched((M, 'run_client', r.act('run')), (M, 'sys', Module(**std))):
        e = execute(app, M.ArgumentError)
    low = lambda t: z3.BoolVal(False) if t is None else t.z <= 0
    bad = z3.Or(z3.And(cap.z, z3.Or(given(out), given(err))), low(ct), low(tt))
    verdict(c, 'client', e, bad, r)
    if e is None:
        c.prove('client: runs once', [x[0] for x in r.log] == ['run'])
        c.prove('client: every file it opened is closed again, no standard stream is', all(s.closed for s in r.opened) and not any(s.closed for s in std.values()))
        c.prove('client: opens exactly the files given', z3.And(*[z3.Or(*[veq_z(s.what[0], p) for p in (out, err)]) for s in r.opened], z3.BoolVal(all(s.what[1] == 'w' for s in r.opened))))
        n = len(r.opened)
        c.prove('client: opens as many files as given', z3.If(given(out), z3.IntVal(1), z3.IntVal(0)) + z3.If(given(err), z3.IntVal(1), z3.IntVal(0)) == n)


def veq_z(a, b):
    v = veq(a, b)
    return v.z if isinstance(v, SymBool) else z3.BoolVal(bool(v))


def client_address(c):
    """A host that cannot be resolved is reported by name."""
    M = mod('client')
    r = Run(c)
    app = object.__new__(M.ClientApp)
    host = text('host')
    app.__dict__.update(host=host)
    class Other(Exception):
        pass
    kind = c.choose([('no such host', None), ('other error', None), ('fine', None)], 'outcome')
    err = [socket.gaierror(-2, 'Name or service not known'), Other('x'), None][kind]
    def go(*a, **k):
        if err is not None:
            raise err
    got = None
    with patched((M, 'run_client', go)):
        try:
            app.run()
        except Exception as e:
            got = e
    if kind == 0:
        c.prove('client: an unknown host is an error of its own', type(got) is M.HostAddressInfo)
        c.prove('client: that names the host', contains(got.args[0] if got.args else '', host))
    else:
        c.prove('client: any other error is passed on', got is err, repr(got))
    c.cover(f'host {kind}')


def contains(t, part):
    z = zstr(t)
    return z3.Contains(z, zstr(part))


def server(c):
    M = mod('server')
    r = Run(c)
    app = object.__new__(M.ServerApp)
    has_file = c.choose([('no FILE', None), ('FILE', None)], 'file') == 1
    path = text('path')
    c.assume(given(path))
    forever, restart, nodb, printing = (mkval('bool', n) for n in ('forever', 'restart', 'no_db', 'print'))
    fail = text('failures')
    app.__dict__.update(filepath=path if has_file else None, forever_mode=forever, restart_mode=restart, in_memory=nodb, print_mode=printing, failure_path=fail)
    std = {n: Stream(n) for n in ('stdin', 'stdout', 'stderr')}
    with patched((M, 'serve_from', r.act('run')), (M, 'serve_forever', r.act('forever')), (M, 'ensuredb', r.act('ensure')), (M, 'sys', Module(**std))):
        e = execute(app, M.ArgumentError)
    bad = z3.Or(z3.And(forever.z, z3.BoolVal(has_file)), z3.And(forever.z, restart.z), z3.And(nodb.z, z3.Or(forever.z, restart.z)))
    verdict(c, 'server', e, bad, r)
    if e is None:
        runs = [x[0] for x in r.log if x[0] != 'ensure']
        c.prove('server: runs once, for ever exactly if asked to', forever.z if runs == ['forever'] else z3.And(z3.Not(forever.z), z3.BoolVal(runs == ['run'])))
        c.prove('server: no standard stream is closed, every file is', all(s.closed for s in r.opened) and not any(s.closed for s in std.values()))


LAUNCH = ['local', 'ssh', 'group', 'ssh and group', 'mpi', 'mpi and group', 'launcher', 'launcher and group']


def cluster(how, policy):
    return lambda c: cluster_app(c, how, policy)


def cluster_app(c, how, policy):
    """how: launch options given; policy: of autoscaling or None."""
    M = mod('cluster')
    r = Run(c)
    app = object.__new__(M.ClusterApp)
    has_file = c.choose([('no FILE', None), ('FILE', None)], 'file') == 1
    path = text('path')
    c.assume(given(path))
    forever, restart, nodb, cap, mpi, init = (mkval('bool', n) for n in ('forever', 'restart', 'no_db', 'capture', 'mpi', 'initdb'))
    out, err, launch, args, group, ssh, fail = (text(n) for n in ('output', 'errors', 'launcher', 'ssh_args', 'ssh_group', 'ssh', 'failures'))
    c.assume(given(ssh) if 'ssh' in how else z3.Not(given(ssh)))
    c.assume(given(group) if 'group' in how else z3.Not(given(group)))
    c.assume(given(launch) if 'launcher' in how else z3.Not(given(launch)))
    c.assume(mpi.z if 'mpi' in how else z3.Not(mpi.z))
    deep = how == 'local'  # what only affects warnings and the database is varied in the plain launch mode
    if policy and deep:
        policy = [policy, 'DYNAMIC'][c.choose([('lower', None), ('upper', None)], 'case')] if policy == 'dynamic' else policy
    default = ['fixed', 'dynamic', 'Dynamic'][c.choose([('fixed', None), ('dynamic', None), ('Dynamic', None)], 'configured policy')] if policy and deep else 'fixed'
    timeout = optional_int(c, 'timeout') if policy == 'dynamic' else None
    # the parser admits at most one of the launch modes, and --initdb only with a database
    c.assume(z3.Not(z3.And(init.z, nodb.z)))
    provider = ['sqlite', 'postgres'][c.choose([('sqlite', None), ('postgres', None)], 'provider')] if deep else 'sqlite'
    if policy or not deep:
        c.assume(z3.Not(init.z))
    conf = Conf(database=Conf(provider=provider), autoscale=Conf(policy=default))
    app.__dict__.update(filepath=path if has_file else None, forever_mode=forever, restart_mode=restart, in_memory=nodb, capture=cap, mpi_mode=mpi, auto_initdb=init,
                        output_path=out, errors_path=err, launch_mode=launch, ssh_args=args, ssh_group=group, ssh_mode=ssh, failure_path=fail, autoscaling_policy=policy,
                        client_timeout=timeout, autoscaling_minimum=mkval('int', 'min_size'))
    std = {n: Stream(n) for n in ('stdin', 'stdout', 'stderr')}
    ps = [(M, n, r.act(n)) for n in ('run_local', 'run_cluster', 'run_ssh', 'initdb', 'checkdb')]
    nodes = Module(from_config=lambda *a: ['h'], from_cmdline=lambda *a: ['h'])
    with patched(*ps, (M, 'NodeList', nodes), (M, 'config', conf), (M, 'blame', lambda *a: 'here'), (M, 'shlex', Module(split=lambda s: [s])), (M, 'sys', Module(**std)), (M, 'log', NullLog())):
        e = execute(app, M.ArgumentError)
    bare = ssh.z == z3.StringVal('<default>')
    sshs = z3.Or(given(ssh), z3.And(given(group), z3.Not(mpi.z), z3.Not(given(launch))))
    auto = z3.BoolVal(policy is not None)
    remote = z3.Or(sshs, mpi.z, given(launch), auto)
    outs = z3.Or(given(out), given(err))
    bad = z3.Or(z3.And(nodb.z, z3.Or(restart.z, forever.z)), z3.And(forever.z, restart.z), z3.And(outs, remote), z3.And(cap.z, outs), z3.And(given(args), z3.Not(sshs)),
                z3.And(given(group), z3.Or(mpi.z, given(launch), z3.And(given(ssh), z3.Not(bare)))), z3.And(auto, z3.Or(sshs, mpi.z, nodb.z)))
    verdict(c, 'cluster', e, bad, r)
    if e is None:
        runs = [x[0] for x in r.log if x[0].startswith('run')]
        c.prove('cluster: runs once', len(runs) == 1)
        c.prove('cluster: in the mode asked for', {'run_local': z3.Not(remote), 'run_ssh': z3.And(sshs, z3.Not(auto)), 'run_cluster': z3.And(remote, z3.Or(auto, z3.Not(sshs)))}[runs[0]])
        c.prove('cluster: no standard stream is closed, every file is', all(s.closed for s in r.opened) and not any(s.closed for s in std.values()))


class Conf(dict):
    def __getattr__(self, a):
        try:
            return self[a]
        except KeyError:
            raise AttributeError(a)


# ------------------------------------------------------------------------------------ errors of a command

def apps():
    """Every command with its name, from the tables of the program itself."""
    H = sys.modules['hypershell']
    from cmdkit.app import ApplicationGroup
    out = {}
    def walk(a, name):
        if issubclass(a, ApplicationGroup):
            for n, b in a.commands.items():
                walk(b, f'{name} {n}'.strip())
        else:
            out[name] = a
    walk(H.HyperShellApp, '')
    return out


COMMANDS = {'submit': 'SubmitApp', 'server': 'ServerApp', 'client': 'ClientApp', 'cluster': 'ClusterApp', 'initdb': 'InitDBApp',
            'task submit': 'TaskSubmitApp', 'task info': 'TaskInfoApp', 'task wait': 'TaskWaitApp', 'task run': 'TaskRunApp', 'task search': 'TaskSearchApp', 'task update': 'TaskUpdateApp',
            'config get': 'ConfigGetApp', 'config set': 'ConfigSetApp', 'config edit': 'ConfigEditApp', 'config which': 'ConfigWhichApp'}


def errors():
    """Error types by command: kind of answer and status (documented: 3 configuration, 5 at run time)."""
    from cmdkit.config import ConfigurationError
    from multiprocessing import AuthenticationError
    E = mod('core.exceptions')
    from sqlalchemy.exc import OperationalError, StatementError
    class OfRuntime(RuntimeError): pass
    class Own(Exception): pass
    def of(name):
        out = [(ConfigurationError, 'message', 3), (RuntimeError, 'message', 5), (OfRuntime, 'message', 5), (FileNotFoundError, 'message', 5), (E.DatabaseUninitialized, 'message', 5)]
        out += [(t, 'traceback', 5) for t in (Own, KeyError, ValueError, OSError, TypeError, AttributeError, PermissionError, ZeroDivisionError)]
        if name == 'client':
            out += [(EOFError, 'disconnect', 5), (ConnectionResetError, 'disconnect', 5), (ConnectionRefusedError, 'message', 5), (AuthenticationError, 'message', 5), (E.HostAddressInfo, 'message', 5)]
        if name in ('task info', 'task wait', 'task update'):
            out.append((mod('data.model').Task.NotFound, 'message', 5))
        if name == 'task wait':
            out.append((mod('task').TaskWaitApp.NonZeroStatus, 'status', None))
        return out
    return of


def handled(name):
    def body(c):
        all_ = apps()
        if name not in all_:
            c.prove(f'{name}: the command exists', False)
            return
        app = all_[name]
        kinds = errors()(name)
        err, how, status = kinds[c.choose([(t.__name__, None) for t, _, _ in kinds], 'error')]
        E = mod('core.exceptions')
        import logging
        t = text('text')
        says, written, opened = [], [], []
        class Error(err, Sym):
            def __init__(self, *a):
                self.args = a
            def vc_str(self): return t
            def __str__(self): return 'text'
        Error.__name__ = Error.__qualname__ = err.__name__
        n = mkval('int', 'status')
        exc = Error(n if how == 'status' else t)
        class File(Stream):
            def vc_print(self, a, kw): written.append(a)
            def write(self, s): written.append((s,))
        def open_(path, mode='r', *a, **k):
            opened.append((path, mode))
            return File((path, mode))
        c.env['open'] = open_
        class When:
            @staticmethod
            def now(*a): return When()
            def strftime(self, f): return 'NOW'
        def say(self, m, *a, **k):
            says.append(m)
        logdir = Module(log='/the/log')
        with patched((logging.Logger, 'critical', say), (E, 'traceback', Module(format_exc=lambda *a: 'TRACE')), (E, 'datetime', When), (E, 'default_path', logdir)):
            for k, h in app.exceptions.items():
                if isinstance(exc, k):
                    got = h(exc)
                    break
            else:
                c.prove(f'{name}: every error is dealt with', False, err.__name__)
                return
        if how == 'status':
            c.prove('the status of the task is the status of the command', veq(got, n))
            c.prove('the status of a task is no message', not says and not opened)
            c.cover('status')
            return
        c.prove(f'{name}: the documented status', got == status, f'{err.__name__}: {got}')
        c.prove(f'{name}: an error is said, once', len(says) == (2 if how == 'traceback' else 1), f'{says}')
        first = says[0]
        c.prove(f'{name}: the message names the error', z3.PrefixOf(z3.StringVal(err.__name__), zstr(first)), f'{first}')
        if how != 'disconnect':
            line = t.replace('\n', ' - ')
            c.prove(f'{name}: the message tells what happened', z3.Or(z3.Contains(zstr(first), zstr(line)), z3.Contains(zstr(first), t.z) if err is E.HostAddressInfo else z3.BoolVal(False)), f'{first}')
        if how == 'traceback':
            c.prove(f'{name}: the traceback goes to one file among the logs', len(opened) == 1 and opened[0][0] == '/the/log/exception-NOW.log' and opened[0][1] == 'w' and written == [('TRACE',)], f'{opened} {written}')
            c.prove(f'{name}: the file is named', z3.Contains(zstr(says[1]), zstr(opened[0][0])))
        else:
            c.prove(f'{name}: no traceback for errors of the user', not opened)
        c.cover(how)
    return body


def table(c):
    H = sys.modules['hypershell']
    c.prove('commands: every documented command exists', set(COMMANDS) <= set(apps()), f'{set(COMMANDS) - set(apps())}')
    c.prove('commands: each runs its own application', all(apps()[n].__name__ == k for n, k in COMMANDS.items() if n in apps()))


def entry(c):
    """hs: logging and signals are set up first, the status is that of the command."""
    H = sys.modules['hypershell']
    log = []
    st = mkval('int', 'status')
    def go(argv, *a, **k):
        log.append(('main', list(argv)))
        return st
    with patched((H, 'initialize_logging', lambda: log.append('logging')), (H, 'register_handlers', lambda: log.append('signals')), (H.HyperShellApp, 'main', go),
                 (H, 'sys', Module(argv=['hs', 'a', '-b']))):
        got = H.main()
    c.prove('main: logging and signals before the command', log[-1:] == [('main', ['a', '-b'])] and set(map(str, log[:-1])) == {'logging', 'signals'} and len(log) == 3, f'{log}')
    c.prove('main: the status of the command', veq(got, st))


def options(c):
    """Every option in the help of a command is one of its options."""
    import re
    for name, app in apps().items():
        known = set(app.interface._option_string_actions)
        doc = set()
        for line in app.interface.help_text.splitlines():
            m = re.match(r'\s{1,8}(-[-\w, ]+)', line)
            if m:
                doc |= set(re.findall(r'(?<![\w-])(--?[A-Za-z][-\w]*)', m.group(1)))
        doc |= set(re.findall(r'(?<![\w-])(--?[A-Za-z][-\w]*)', app.interface.usage_text))
        c.prove(f'{name}: every documented option is accepted', doc <= known and bool(doc), f'{doc - known}')


def signals(c):
    G = mod('core.signal')
    got = []
    with patched((G, 'register', lambda s, h: got.append((s, h)))):
        G.register_handlers()
    import signal
    c.prove('signals: SIGUSR1 and SIGUSR2 are taken', sorted(s for s, _ in got) == sorted([signal.SIGUSR1, signal.SIGUSR2]), f'{got}')
    first, second = ([signal.SIGUSR1, signal.SIGUSR2][c.choose([('1', None), ('2', None)], n)] for n in ('first', 'second'))
    with patched((G, 'RECEIVED', None), (G, 'log', NullLog())):
        c.prove('signals: none at first', G.check_signal() is None)
        dict(got)[first](first, None)
        c.prove('signals: the one received is seen from then on', G.check_signal() == first and G.check_signal() == first)
        dict(got)[second](second, None)
        c.prove('signals: the last one counts', G.check_signal() == second)
    c.cover('signals')


def levels(c):
    L = mod('core.logging')
    import logging
    from cmdkit.config import ConfigurationError
    want = {'DEVEL': 1, 'TRACE': 5, 'DEBUG': 10, 'INFO': 20, 'WARNING': 30, 'ERROR': 40, 'CRITICAL': 50}
    other = c.choose([('text', None), ('no text', None)], 'level') == 1
    v = mkval('int', 'level') if other else text('level')
    with patched((L, 'blame', lambda *a: 'here'), (L, 'config', Conf())):
        try:
            got = L.level_from_name(v)
        except ConfigurationError:
            c.prove('level: refused only if it is no level', other or z3.Not(z3.Or(*[v.upper().z == z3.StringVal(k) for k in want])))
            c.cover(f'refused {other}')
            return
    c.prove('level: only text is a level', not other)
    if other:
        return
    c.prove('level: as its name says in upper or lower case', z3.Or(*[z3.And(v.upper().z == z3.StringVal(k), zint(got) == n) for k, n in want.items()]), f'{got}')
    c.cover('level')


def zint(x):
    return x.z if isinstance(x, Sym) else z3.IntVal(int(x))


def run(rep):
    rep.run('ClientApp', client, covers=['refused', 'accepted'])
    rep.run('ClientApp.run', client_address, covers=['host 0', 'host 1', 'host 2'])
    rep.run('ServerApp', server, covers=['refused', 'accepted'])
    for how in LAUNCH:
        for policy in (None, 'fixed', 'dynamic'):
            ok = 'group' not in how or how == 'group' or how == 'ssh and group'
            rep.run(f'ClusterApp {how}' + (f' autoscaling {policy}' if policy else ''), cluster(how, policy), covers=['refused'] + ['accepted'] * (ok and not (policy and how not in ('local', 'launcher'))))
    for n in COMMANDS:
        rep.run(f'{n} errors', handled(n), covers=['message', 'traceback'])
    rep.run('commands', table)
    rep.run('options', options)
    rep.run('main', entry)
    rep.run('signals', signals, covers=['signals'])
    rep.run('level_from_name', levels, covers=['refused False', 'refused True', 'level'])
