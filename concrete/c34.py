"""C34 on the real code: options and errors through the real entry point, in process (with the run functions recorded) and as processes."""
import builtins
import contextlib
import io
import itertools
import logging
import os
import random
import socket
import subprocess
import sys
from concrete import lib
lib.setup(fake_clock=False, dbfile=os.path.join(lib.scratch(), f'db.{os.getpid()}.sqlite'))
import hypershell
import hypershell.client as C
import hypershell.server as S
import hypershell.cluster as K
import hypershell.core.exceptions as E
import hypershell.core.signal as G
import hypershell.core.logging as L
import hypershell.data.model as M
import hypershell.task as T
import hypershell.submit
import hypershell.config
from cmdkit.config import ConfigurationError
from multiprocessing import AuthenticationError
from types import SimpleNamespace

OPTIONS = {
    'client': [['--capture'], ['-o', 'OUT'], ['-e', 'ERR'], ['-T', '10'], ['-T', '0'], ['-T', '-1'], ['-W', '5'], ['-W', '0'], ['-N', '2'], ['--no-confirm']],
    'server': [['FILE'], ['--forever'], ['--restart'], ['--no-db'], ['-f', 'FAIL'], ['--print'], ['-r', '2']],
    'cluster': [['FILE'], ['--forever'], ['--restart'], ['--no-db'], ['-c'], ['-o', 'OUT'], ['-e', 'ERR'], ['-f', 'FAIL'], ['--mpi'], ['--ssh'], ['--ssh=h'], ['--launcher=x'], ['--ssh-args=-v'],
                ['--ssh-group=g'], ['--autoscaling'], ['-A', 'dynamic'], ['-A', 'fixed'], ['-T', '60'], ['-r', '1']],
}
MODES = [['--mpi'], ['--ssh'], ['--ssh=h'], ['--launcher=x']]
COMMANDS = {'submit': ['x'], 'server': ['-r', '1'], 'client': ['-N', '1'], 'cluster': ['-N', '1'], 'initdb': ['-y'], 'task submit': ['x'], 'task info': ['ID'], 'task wait': ['ID'], 'task run': ['x'],
            'task search': ['args'], 'task update': ['ID', 'attempt=2'], 'config get': ['a'], 'config set': ['a', '1'], 'config edit': ['--user'], 'config which': ['a']}
APPS = {'submit': 'submit.SubmitApp', 'server': 'server.ServerApp', 'client': 'client.ClientApp', 'cluster': 'cluster.ClusterApp', 'initdb': 'data.InitDBApp', 'task submit': 'task.TaskSubmitApp',
        'task info': 'task.TaskInfoApp', 'task wait': 'task.TaskWaitApp', 'task run': 'task.TaskRunApp', 'task search': 'task.TaskSearchApp', 'task update': 'task.TaskUpdateApp',
        'config get': 'config.ConfigGetApp', 'config set': 'config.ConfigSetApp', 'config edit': 'config.ConfigEditApp', 'config which': 'config.ConfigWhichApp'}
TEXTS = ['went wrong', 'two\nlines', '', "it's", 'caf\u00e9', '{x} %s']


def flag(args, *names):
    return any(a in names for a in args)


def contradictory(app, combo):
    has = lambda *o: list(o) in combo
    if app == 'client':
        return (has('--capture') and (has('-o', 'OUT') or has('-e', 'ERR'))) or has('-T', '0') or has('-T', '-1') or has('-W', '0')
    db = has('--no-db') and (has('--forever') or has('--restart'))
    if app == 'server':
        return db or (has('--forever') and (has('FILE') or has('--restart')))
    ssh, other = has('--ssh') or has('--ssh=h'), has('--mpi') or has('--launcher=x')
    group = has('--ssh-group=g')
    sshs = ssh or (group and not other)
    auto = has('--autoscaling') or has('-A', 'dynamic') or has('-A', 'fixed')
    outs = has('-o', 'OUT') or has('-e', 'ERR')
    return (db or (has('--forever') and has('--restart')) or (outs and (sshs or other or auto)) or (has('-c') and outs) or (has('--ssh-args=-v') and not sshs)
            or (group and (other or has('--ssh=h'))) or (auto and (sshs or has('--mpi') or has('--no-db'))))


def admissible(app, combo):
    """Not refused by the parser itself, no option twice."""
    one = [['--autoscaling'], ['-A', 'dynamic'], ['-A', 'fixed']]
    return all(sum(o in combo for o in g) <= 1 for g in (MODES, one, [['-T', '10'], ['-T', '0'], ['-T', '-1'], ['-T', '60']], [['-W', '5'], ['-W', '0']], [['-f', 'FAIL'], ['--print']]))


def cases(rng, tier):
    yield {'kind': 'fixed'}
    yield {'kind': 'process', 'args': ['client', '--capture', '-o', 'x.out'], 'status': 2, 'text': 'capture'}
    yield {'kind': 'process', 'args': ['server', '--forever', '--restart'], 'status': 2, 'text': 'forever'}
    yield {'kind': 'process', 'args': ['task', 'info', '5f2d7b1e-0000-4000-8000-000000000001'], 'status': 5, 'text': '5f2d7b1e-0000-4000-8000-000000000001'}
    yield {'kind': 'process', 'args': ['cluster', '--mpi', '-o', 'x.out'], 'status': 2, 'text': 'output'}
    yield {'kind': 'process', 'args': ['client', '-H', 'localhost', '-p', '1', '-N', '1'], 'status': 5, 'text': 'ConnectionRefusedError'}
    for app in OPTIONS:
        for pair in itertools.combinations(OPTIONS[app], 2):
            if admissible(app, list(pair)):
                yield {'kind': 'options', 'app': app, 'combo': list(pair)}
        for o in OPTIONS[app]:
            yield {'kind': 'options', 'app': app, 'combo': [o]}
    for cmd in COMMANDS:
        for e in errors(cmd):
            yield {'kind': 'error', 'cmd': cmd, 'error': e, 'text': rng.choice(TEXTS), 'where': rng.choice(['run', 'run', 'enter'])}
    while True:
        if rng.random() < 0.6:
            app = rng.choice(list(OPTIONS) + ['cluster'])
            combo = rng.sample(OPTIONS[app], min(len(OPTIONS[app]), rng.randint(0, 5)))
            if admissible(app, combo):
                yield {'kind': 'options', 'app': app, 'combo': combo}
        else:
            cmd = rng.choice(list(COMMANDS))
            yield {'kind': 'error', 'cmd': cmd, 'error': rng.choice(errors(cmd)), 'text': rng.choice(TEXTS), 'where': rng.choice(['run', 'enter'])}


@contextlib.contextmanager
def swapped(*triples):
    old = [(o, n, getattr(o, n)) for o, n, _ in triples]
    try:
        for o, n, v in triples:
            setattr(o, n, v)
        yield
    finally:
        for o, n, v in reversed(old):
            setattr(o, n, v)


class Says(logging.Handler):
    def __init__(self):
        super().__init__()
        self.said = []
    def emit(self, r):
        if r.levelno >= logging.CRITICAL:
            self.said.append(r.getMessage())


@contextlib.contextmanager
def heard():
    h = Says()
    lg = logging.getLogger('hypershell')
    old, prop, dis = lg.handlers[:], lg.propagate, lg.level
    lg.handlers, lg.propagate = [h], False
    try:
        yield h.said
    finally:
        lg.handlers, lg.propagate = old, prop


def hs(args):
    with contextlib.redirect_stderr(io.StringIO()) as err, contextlib.redirect_stdout(io.StringIO()):
        return hypershell.HyperShellApp.main(args), err


def check_options(case):
    app, combo = case['app'], case['combo']
    here = os.path.join(lib.scratch(), f'files{os.getpid()}')
    os.makedirs(here, exist_ok=True)
    names = {n: os.path.join(here, n) for n in ('OUT', 'ERR', 'FAIL', 'FILE')}
    builtins.open(names['FILE'], 'w').close()
    positional = [names[x] for o in combo for x in o if x == 'FILE']
    args = positional + [names.get(x, x) for o in combo if o != ['FILE'] for x in o]
    log, opened = [], []
    def act(n):
        return lambda *a, **k: log.append(n)
    real = builtins.open
    def open_(path, mode='r', *a, **k):
        f = real(path, mode, *a, **k)
        if str(path).startswith(here):
            opened.append((os.path.basename(str(path)), f))
        return f
    nodes = SimpleNamespace(from_config=lambda *a: ['h'], from_cmdline=lambda *a: ['h'])
    ps = [(C, 'run_client', act('run')), (S, 'serve_from', act('run')), (S, 'serve_forever', act('run')), (S, 'ensuredb', act('db')), (K, 'run_local', act('local')), (K, 'run_cluster', act('remote')),
          (K, 'run_ssh', act('ssh')), (K, 'initdb', act('db')), (K, 'checkdb', act('db')), (K, 'NodeList', nodes), (builtins, 'open', open_)]
    with heard() as said, swapped(*ps):
        cmd = [app] + (args or COMMANDS[app])
        status, _ = hs(cmd)
    bad = contradictory(app, combo)
    runs = [x for x in log if x != 'db']
    if bad:
        if status != 2:
            return f'refused: contradictory options of the {app} are accepted: {" ".join(cmd)} ended with {status}'
        if log or opened:
            return f'idle: the {app} refuses its options after {log} {[n for n, _ in opened]}'
        if not any(said):
            return f'message: the {app} refuses {args} without a word'
        return None
    if status != 0 or len(runs) != 1:
        return f'accepted: {" ".join(cmd)} ended with {status} and ran {runs}: {said}'
    if any(not f.closed for _, f in opened):
        return f'closed: {[n for n, f in opened if not f.closed]} left open'
    want = sorted(n for o in combo for n in o if n in ('OUT', 'ERR') and app == 'client')
    if app == 'client' and sorted(n for n, _ in opened) != want:
        return f'opened: {sorted(n for n, _ in opened)} instead of {want}'
    if app == 'cluster':
        has = lambda *o: list(o) in combo
        auto = has('--autoscaling') or has('-A', 'dynamic') or has('-A', 'fixed')
        mode = 'remote' if auto or has('--mpi') or has('--launcher=x') else 'ssh' if has('--ssh') or has('--ssh=h') or has('--ssh-group=g') else 'local'
        if runs != [mode]:
            return f'mode: {" ".join(cmd)} ran {runs} instead of {mode}'
    return None


class Own(Exception):
    pass


def kinds():
    from sqlalchemy.exc import StatementError, OperationalError
    return {'ConfigurationError': (ConfigurationError, 'message', 3), 'RuntimeError': (RuntimeError, 'message', 5), 'RecursionError': (RecursionError, 'message', 5),
            'FileNotFoundError': (FileNotFoundError, 'message', 5), 'DatabaseUninitialized': (E.DatabaseUninitialized, 'message', 5),
            'Own': (Own, 'traceback', 5), 'KeyError': (KeyError, 'traceback', 5), 'ValueError': (ValueError, 'traceback', 5), 'PermissionError': (PermissionError, 'traceback', 5),
            'EOFError': (EOFError, 'disconnect', 5), 'ConnectionResetError': (ConnectionResetError, 'disconnect', 5), 'ConnectionRefusedError': (ConnectionRefusedError, 'message', 5),
            'AuthenticationError': (AuthenticationError, 'message', 5), 'gaierror': (socket.gaierror, 'host', 5), 'NotFound': (M.Task.NotFound, 'message', 5),
            'NonZeroStatus': (T.TaskWaitApp.NonZeroStatus, 'status', None), 'KeyboardInterrupt': (KeyboardInterrupt, 'interrupt', 4)}


def errors(cmd):
    out = ['ConfigurationError', 'RuntimeError', 'RecursionError', 'FileNotFoundError', 'DatabaseUninitialized', 'Own', 'KeyError', 'ValueError', 'PermissionError', 'KeyboardInterrupt']
    if cmd == 'client':
        out += ['EOFError', 'ConnectionResetError', 'ConnectionRefusedError', 'AuthenticationError', 'gaierror']
    if cmd in ('task info', 'task wait', 'task update'):
        out += ['NotFound']
    if cmd == 'task wait':
        out += ['NonZeroStatus']
    return out


def check_error(case):
    cmd, text = case['cmd'], case['text']
    err, how, status = kinds()[case['error']]
    modname, cls = APPS[cmd].rsplit('.', 1)
    app = getattr(sys.modules['hypershell.' + modname], cls)
    exc = err(17) if how == 'status' else err(text)
    where = case['where']
    def boom(*a, **k):
        raise exc
    if how == 'host':
        ps, where = [(C, 'run_client', boom)], 'run'
    else:
        ps = [(app, 'run', boom)] if where == 'run' else [(app, '__enter__', boom)]
    quiet = [(app, '__enter__', lambda self: self), (app, '__exit__', lambda self, *a: None)] if where == 'run' else []
    logdir = os.path.join(lib.scratch(), f'logs{os.getpid()}')
    os.makedirs(logdir, exist_ok=True)
    for n in os.listdir(logdir):
        os.unlink(os.path.join(logdir, n))
    with heard() as said, swapped(*quiet, *ps, (E, 'default_path', SimpleNamespace(log=logdir))):
        try:
            got, _ = hs(cmd.split() + COMMANDS[cmd])
        except BaseException as e:
            return f'escapes: {case["error"]} of {cmd} is not dealt with: {e!r}'
    files = os.listdir(logdir)
    if how == 'status':
        return None if got == 17 and not said else f'status: {got} {said}'
    if got != status:
        return f'status: {case["error"]} of {cmd} ends with {got} instead of {status}'
    if how == 'interrupt':
        return None if said else 'interrupt: without a word'
    name = 'HostAddressInfo' if how == 'host' else err.__name__
    if len(said) != (2 if how == 'traceback' else 1) or not said[0].startswith(name):
        return f'message: {case["error"]} of {cmd} says {said}'
    if how == 'host':
        return None if 'localhost' in said[0] or 'ost' in said[0] else f'message: an unknown host says {said}'
    if how != 'disconnect' and str(exc).replace('\n', ' - ') not in said[0]:
        return f'message: {case["error"]}({text!r}) of {cmd} says {said}'
    if how == 'traceback':
        if len(files) != 1 or files[0] not in said[1]:
            return f'traceback: {files} {said}'
        with open(os.path.join(logdir, files[0])) as f:
            content = f.read()
        if err.__name__ not in content or 'Traceback' not in content or 'boom' not in content:
            return f'traceback: of {case["error"]} holds {content!r}'
    elif files:
        return f'traceback: {files} for {case["error"]}'
    return None


def check_fixed():
    import signal
    got = {}
    with swapped((G, 'register', lambda s, h: got.__setitem__(s, h)), (G, 'RECEIVED', None)):
        G.register_handlers()
        if set(got) != {signal.SIGUSR1, signal.SIGUSR2}:
            return f'signals: handlers for {set(got)}'
        for s in (signal.SIGUSR1, signal.SIGUSR2, signal.SIGUSR1):
            got[s](s, None)
            if G.check_signal() != s:
                return f'signals: {s} received, {G.check_signal()} seen'
    want = {'DEVEL': 1, 'TRACE': 5, 'DEBUG': 10, 'INFO': 20, 'WARNING': 30, 'ERROR': 40, 'CRITICAL': 50}
    for n, v in want.items():
        for k in (n, n.lower(), n.title()):
            if L.level_from_name(k) != v:
                return f'level: {k} is {L.level_from_name(k)}'
    for n in ('', 'none', 'NOTSET', 'WARN', 'info ', 5, None, True):
        try:
            L.level_from_name(n)
        except ConfigurationError:
            continue
        return f'level: {n!r} is a level'
    order = []
    with swapped((hypershell, 'initialize_logging', lambda: order.append('logging')), (hypershell, 'register_handlers', lambda: order.append('signals')),
                 (sys, 'argv', ['hs', 'a', '-b'])):
        main = hypershell.HyperShellApp.main
        hypershell.HyperShellApp.main = lambda argv, *a, **k: order.append(list(argv)) or 7
        try:
            st = hypershell.main()
        finally:
            del hypershell.HyperShellApp.main
    if st != 7 or set(order[:2]) != {'logging', 'signals'} or order[2:] != [['a', '-b']]:
        return f'main: {order} {st}'
    return None


def check_process(case):
    here = os.path.join(lib.scratch(), f'proc{os.getpid()}')
    os.makedirs(os.path.join(here, 'site'), exist_ok=True)
    env = {k: v for k, v in os.environ.items() if not k.startswith('HYPERSHELL_')}
    env.update(HYPERSHELL_SITE=os.path.join(here, 'site'), HYPERSHELL_DATABASE_FILE=os.path.join(here, 'db.sqlite'), PYTHONPATH=os.path.join(lib.REPO, 'src'), PYTHONDONTWRITEBYTECODE='1', HOME=here)
    run = 'import sys, hypershell; sys.argv = ["hs"] + sys.argv[1:]; sys.exit(hypershell.main())'
    p = subprocess.run([sys.executable, '-c', run] + case['args'], cwd=here, env=env, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=60)
    if p.returncode != case['status'] or case['text'] not in p.stderr:
        return f'process: {case["args"]} ended with {p.returncode} instead of {case["status"]}: {p.stderr[-200:]}'
    if os.path.exists(os.path.join(here, 'x.out')):
        return 'process: a file was opened although the options were refused'
    return None


def check(case):
    return {'options': check_options, 'error': check_error}.get(case['kind'], lambda c: check_fixed() if c['kind'] == 'fixed' else check_process(c))(case)
