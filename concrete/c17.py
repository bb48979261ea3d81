"""C17 on the real code: `hs cluster`, `hs server` and `hs client` command lines are parsed by the real
commands and run; the server, the client, the autoscaler and launched processes are recorders.  The
command of every launched client is parsed by the real client command (through a simulated remote
shell for SSH)."""
import inspect
import io
import os
import shlex
import sys
from unittest import mock
from concrete import lib
lib.setup(fake_clock=False)
from cmdkit.config import Namespace
from hypershell import client as C, server as S, cluster as X
from hypershell.cluster import local as L, remote as R, ssh as H
from hypershell.core.logging import HOSTNAME
from hypershell.core.thread import Thread
from hypershell.core.queue import QueueConfig

SIGS = {n: inspect.signature(getattr(m, n).__init__) for m, n in ((S, 'ServerThread'), (C, 'ClientThread'), (R, 'AutoScalerThread'))}


class Rec:
    def __init__(self, w, name, a, k):
        self.w, self.name = w, name
        b = SIGS[name].bind(None, *a, **k)
        b.apply_defaults()
        self.kw = dict(b.arguments)
        w.made.append((name, self.kw))
    def start(self): self.w.events.append(self.name + '.start')
    def join(self, timeout=None): self.w.events.append(self.name + '.join')
    def stop(self, *a, **k): self.w.events.append(self.name + '.stop')
    def is_alive(self): return False


def factory(w, name):
    def f(*a, **k):
        return Rec(w, name, a, k)
    def new(*a, **k):
        r = Rec(w, name, a, k)
        r.start()
        return r
    f.new = new
    return f


class World:
    def __init__(self):
        self.made, self.events, self.launched = [], [], []
    def popen(self, argv, **kw):
        p = mock.Mock()
        p.pid, p.argv = 1, list(argv)
        p.wait = lambda timeout=None: self.events.append('proc.wait') or 0
        p.poll = lambda: None
        self.events.append('proc.start')
        self.launched.append((list(argv), kw.get('env')))
        return p
    def get(self, name):
        return [k for n, k in self.made if n == name]


def run_app(w, app, argv, conf=None, environ=None):
    from contextlib import ExitStack
    with ExitStack() as st:
        p = lambda o, a, v: st.enter_context(mock.patch.object(o, a, v))
        p(Thread, 'start', lambda self: self.run_with_exceptions())
        p(Thread, 'join', lambda self, timeout=None: w.events.append('cluster.join'))
        for m in (L, R, H):
            p(m, 'ServerThread', factory(w, 'ServerThread'))
        p(S, 'ServerThread', factory(w, 'ServerThread'))
        p(L, 'ClientThread', factory(w, 'ClientThread'))
        p(L, 'set_client_standalone', lambda m: None)
        p(C, 'ClientThread', factory(w, 'ClientThread'))
        p(R, 'AutoScalerThread', factory(w, 'AutoScalerThread'))
        p(R, 'Popen', w.popen)
        p(H, 'Popen', w.popen)
        p(R.time, 'sleep', lambda s: None)
        if conf is not None:
            p(H, 'config', Namespace(conf))
            p(H, 'blame', lambda *a: 'test')
        if environ:
            st.enter_context(mock.patch.dict(os.environ, environ))
        a = app.from_cmdline(argv)
        if hasattr(a, 'check_arguments'):
            a.check_arguments()
        elif hasattr(a, 'check_args'):
            a.check_args()
        a.run()
    return a


OPTS = ('-N', '-t', '-b', '-w', '-d', '-r', '-S', '-p', '-T', '-W', '-F', '-P', '-X', '-Y', '-I')
LONG = {'-N': '--num-tasks', '-t': '--template', '-b': '--bundlesize', '-w': '--bundlewait', '-d': '--delay-start', '-r': '--max-retries', '-S': '--signalwait', '-p': '--port',
        '-T': '--timeout', '-W': '--task-timeout', '-F': '--factor', '-P': '--period', '-X': '--min-size', '-Y': '--max-size', '-I': '--init-size'}
TEXT = ["echo {}", "a 'b c' {/}", 'x"y z"', "p > {}.out", "{=a;b=}", "$HOME {}", "a\\b {}", "tab\there", "two  spaces", "%s", "é {}", "a;b|c&d", "#c {}", "`id` {}", "a!b", "{} *"]
NAMES = {'-N': 'num_tasks', '-t': 'template', '-b': 'bundlesize', '-w': 'bundlewait', '-d': 'delay_start', '-S': 'task_signalwait', '-T': 'client_timeout', '-W': 'task_timeout'}


def rnd(rng, f):
    if f == '-t':
        return rng.choice(TEXT)
    if f in ('-d', '-F'):
        return rng.choice([0.0, 0.5, 12.25, 1e-3, 7.0, 3.125] + [-1.0, -0.5, -60.0] * (f == '-d'))
    if f == '-p':
        return rng.randint(1024, 65535)
    if f in ('-w', '-r', '-S') and rng.random() < .2:
        return 0
    return rng.randint(1, 9999)


def cases(rng, tier):
    n = 0
    modes = ['local', 'launch', 'mpi', 'ssh', 'autoscaling']
    while True:
        mode = modes[n % 5]
        k = rng.random()
        sel = OPTS if n % 3 == 0 else [f for f in OPTS if rng.random() < 0.5]
        if mode != 'autoscaling':
            sel = [f for f in sel if f not in ('-F', '-P', '-X', '-Y', '-I')]
        c = {'kind': mode, 'opts': {f: rnd(rng, f) for f in sel}, 'long': rng.random() < 0.5,
             'eager': rng.random() < .5, 'capture': rng.random() < .5, 'no_confirm': rng.random() < .5,
             'run': rng.choice(['db', 'nodb', 'forever', 'restart'] if mode != 'autoscaling' else ['db', 'forever', 'restart']),
             'file': rng.random() < .6, 'failures': rng.random() < .5, 'exe': rng.choice([None, '/opt/x/hs', 'hs'])}
        if mode == 'local' and not c['capture']:
            c['output'], c['errors'] = rng.random() < .5, rng.random() < .5
        if mode in ('launch', 'autoscaling'):
            c['launcher'] = rng.choice(['srun', 'srun -n 4 --exclusive', "x 'a b' c"] + ([None] if mode == 'autoscaling' else []))
        if mode == 'autoscaling':
            c['policy'] = rng.choice(['fixed', 'dynamic', None])
        if mode == 'ssh':
            hosts = [f'h{rng.randint(0, 99)}.net' for _ in range(rng.randint(1, 5))]
            c['hosts'] = hosts
            c['how'] = rng.choice(['cmdline', 'config', 'group'])
            c['env'] = rng.random() < .5
            c['environ'] = {'HYPERSHELL_X1': rng.choice(['plain', 'two words', "it's", '$HOME'])}
            c['ssh_args'] = rng.choice([None, '-q', "-o 'A B' -v"])
            c['conf_args'] = rng.choice([None, '-C', '-i key'])
        yield c
        if n % 7 == 0:
            yield {'kind': 'server', 'opts': {f: rnd(rng, f) for f in ('-b', '-w', '-r', '-p') if rng.random() < .8}, 'bind': rng.choice(['127.0.0.1', '0.0.0.0', None]), 'key': rng.choice(['k1', 'other key', None]),
                   'eager': rng.random() < .5, 'nodb': rng.random() < .5, 'no_confirm': rng.random() < .5, 'run': rng.choice(['plain', 'forever', 'restart']), 'file': rng.random() < .5, 'failures': rng.choice([None, 'file', 'print'])}
            yield {'kind': 'serve', 'without': [k for k in ('bundlesize', 'eager', 'auth', 'in_memory', 'address') if rng.random() < .3]}
            yield {'kind': 'client', 'opts': {f: rnd(rng, f) for f in NAMES if rng.random() < .8}, 'no_confirm': rng.random() < .5, 'capture': rng.random() < .5, 'host': 'h1', 'port': rng.randint(1024, 9999), 'key': 'kk'}
            yield {'kind': 'parts', 'n': rng.randint(1, 4), 'seed': rng.randint(0, 999), 'mem': rng.random() < .5, 'nc': rng.random() < .5}
        n += 1


def opt(c, f, v):
    return [LONG[f] if c.get('long') else f, str(v)]


def default(app, name):
    return {a.dest: a.default for a in app.interface._actions}.get(name)


def check_client(kw, c, who, address, key, confirm):
    for f, n in NAMES.items():
        want = c['opts'][f] if f in c['opts'] else default(X.ClusterApp, n)
        if kw[n] != want:
            return f'{who}-{f}: client got {n}={kw[n]!r}, requested {want!r}'
    if bool(kw['capture']) != c['capture']:
        return f'{who}-capture: client got capture={kw["capture"]!r}'
    if bool(kw['no_confirm']) != confirm:
        return f'{who}-no-confirm: client got no_confirm={kw["no_confirm"]!r}, server expects {confirm}'
    if tuple(kw['address']) != address:
        return f'{who}-address: client connects to {kw["address"]!r}, server is {address!r}'
    if kw['auth'] != key:
        return f'{who}-key: server and client keys differ'


KEYS = set()


def check_server(w, c, who, bind, path, fpath):
    sv = w.get('ServerThread')
    if len(sv) != 1:
        return f'{who}-servers: {len(sv)} servers created', None
    kw = sv[0]
    auto = c['kind'] == 'autoscaling'
    o = c['opts']
    want = {'bundlesize': o.get('-b', default(X.ClusterApp, 'bundlesize')), 'bundlewait': o.get('-w', default(X.ClusterApp, 'bundlewait')), 'max_retries': o.get('-r', default(X.ClusterApp, 'max_retries')),
            'eager': c['eager'], 'in_memory': c['run'] == 'nodb', 'no_confirm': c['no_confirm'] and not auto, 'forever_mode': auto or c['run'] == 'forever'}
    if not auto:
        want['restart_mode'] = c['run'] == 'restart'
    for n, v in want.items():
        if kw[n] != v:
            return f'{who}-server-{n}: server got {n}={kw[n]!r}, requested {v!r}', None
    if tuple(kw['address']) != bind:
        return f'{who}-bind: server bound to {kw["address"]!r}, requested {bind!r}', None
    src = kw['source']
    if c['run'] == 'restart':
        if src:
            return f'{who}-source: something is submitted on restart', None
    elif path:
        if getattr(src, 'name', None) != path:
            return f'{who}-source: source is {src!r}, requested {path}', None
    elif src is not sys.stdin:
        return f'{who}-source: source is {src!r}, expected standard input', None
    if (getattr(kw['redirect_failures'], 'name', None)) != fpath:
        return f'{who}-failures: failures stream {kw["redirect_failures"]!r}, requested {fpath}', None
    if fpath and 'w' not in kw['redirect_failures'].mode:
        return f'{who}-failures: failures stream is not writable', None
    key = kw['auth']
    if not isinstance(key, str) or len(key) < 32 or key in KEYS:
        return f'{who}-key: the key is not freshly generated', None
    KEYS.add(key)
    ev = w.events
    if ev.count('ServerThread.start') != 1 or ev.count('ServerThread.join') != 1:
        return f'{who}-server-run: server started {ev.count("ServerThread.start")} and awaited {ev.count("ServerThread.join")} times', None
    for e in ('ClientThread.start', 'proc.start', 'AutoScalerThread.start'):
        if e in ev and ev.index(e) < ev.index('ServerThread.start'):
            return f'{who}-order: {e} before the server is started', None
    return None, key


def as_client(argv):
    """What the real client command makes of its arguments."""
    w = World()
    try:
        run_app(w, C.ClientApp, argv)
    except SystemExit as e:
        return None
    got = w.get('ClientThread')
    return got[0] if len(got) == 1 else None


def files(case):
    d = lib.scratch()
    path = os.path.join(d, 'tasks.in')
    open(path, 'w').write('a\nb\n')
    return path, os.path.join(d, 'failed.out')


def check_cluster_app(c):
    who = c['kind']
    path, fpath = files(c)
    argv = []
    use_file = c['file'] and c['run'] != 'restart'
    for f, v in c['opts'].items():
        argv += opt(c, f, v)
    for k, f in (('eager', '--eager'), ('capture', '--capture'), ('no_confirm', '--no-confirm')):
        if c[k]:
            argv.append(f)
    argv += {'db': [], 'nodb': ['--no-db'], 'forever': ['--forever'], 'restart': ['--restart']}[c['run']]
    if c['failures']:
        argv += ['-f', fpath]
    d = lib.scratch()
    if c.get('output'):
        argv += ['-o', os.path.join(d, 'o')]
    if c.get('errors'):
        argv += ['-e', os.path.join(d, 'e')]
    conf = {'ssh': {}}
    if who == 'launch' or (who == 'autoscaling' and c['launcher']):
        argv += ['--launcher', c['launcher']]
    if who == 'mpi':
        argv += ['--mpi']
    if who == 'autoscaling':
        argv += ['-A'] + ([c['policy']] if c['policy'] else [])
    if c['exe'] and who != 'local':
        argv += ['--remote-exe', c['exe']]
    if who == 'ssh':
        if c['how'] == 'cmdline':
            argv += ['--ssh', ','.join(c['hosts'])]
        elif c['how'] == 'config':
            argv += ['--ssh']
            conf['ssh']['nodelist'] = list(c['hosts'])
        else:
            argv += ['--ssh', '--ssh-group', 'g1']
            conf['ssh']['nodelist'] = {'g0': ['other'], 'g1': list(c['hosts'])}
        if c['env']:
            argv += ['--env']
        if c['ssh_args']:
            argv += ['--ssh-args=' + c['ssh_args']]
        if c['conf_args']:
            conf['ssh']['args'] = c['conf_args']
    if use_file:                         # last: options with an optional value do not take it
        argv.append(path)
        if argv[-2] in ('-A', '--ssh'):
            argv.insert(-1, '--no-confirm') if c['no_confirm'] else argv.insert(0, argv.pop())
    w = World()
    try:
        run_app(w, X.ClusterApp, argv, conf, c.get('environ'))
    except SystemExit:
        return f'{who}-rejected: {argv} is rejected'
    bind = (QueueConfig.host if who == 'local' else '0.0.0.0', c['opts'].get('-p', default(X.ClusterApp, 'port')))
    r, key = check_server(w, c, who, bind, path if use_file else None, fpath if c['failures'] else None)
    if r:
        return r
    nc = c['no_confirm'] and who != 'autoscaling'
    exe = c['exe'] or default(X.ClusterApp, 'remote_exe')
    if who == 'local':
        cl = w.get('ClientThread')
        if len(cl) != 1 or w.launched:
            return f'local-clients: {len(cl)} clients, {len(w.launched)} processes'
        for k, n, std in (('output', 'redirect_output', sys.stdout), ('errors', 'redirect_errors', sys.stderr)):
            s = cl[0][n]
            if c.get(k):
                if getattr(s, 'name', None) != os.path.join(d, k[0]):
                    return f'local-{n}: {s!r}'
            elif s is not std:
                return f'local-{n}: {s!r}'
        if w.events.count('ClientThread.start') != 1 or w.events.count('ClientThread.join') != 1:
            return 'local-client-run: client not started and awaited once'
        return check_client(cl[0], c, who, bind, key, nc)
    addr = (HOSTNAME, bind[1])
    if who == 'ssh':
        if len(w.launched) != len(c['hosts']):
            return f'ssh-hosts: {len(w.launched)} clients for {len(c["hosts"])} hosts'
        if w.events.count('proc.wait') != len(c['hosts']):
            return 'ssh-wait: not every client is awaited'
        args = shlex.split(c['ssh_args'] if c['ssh_args'] else (c['conf_args'] or ''))
        for (argv, env), h in zip(w.launched, c['hosts']):
            head = ['ssh', *args, h]
            if argv[:len(head)] != head:
                return f'ssh-command: {argv[:len(head) + 1]} for host {h} with arguments {args}'
            words = shlex.split(' '.join(argv[len(head):]))        # what the remote shell sees
            got = {}
            while words and '=' in words[0] and words[0].split('=')[0].isidentifier():
                k, v = words.pop(0).split('=', 1)
                got[k] = v
            want = {k: v for k, v in {**os.environ, **c['environ']}.items() if k.startswith('HYPERSHELL')} if c['env'] else {}
            if got != want:
                return f'ssh-env: variables {got} sent, expected {want}'
            if words[:2] != [exe, 'client']:
                return f'ssh-exe: remote command {words[:3]}'
            k = as_client(words[2:])
            if k is None:
                return f'ssh-argv: remote client rejects {words[2:]}'
            r = check_client(k, c, who, addr, key, nc)
            if r:
                return r
        return None
    if who == 'autoscaling':
        sc = w.get('AutoScalerThread')
        if len(sc) != 1 or w.launched:
            return f'autoscaling-scaler: {len(sc)} autoscalers'
        kw = sc[0]
        o = c['opts']
        for n, f, dst in (('factor', '-F', 'autoscaling_factor'), ('period', '-P', 'autoscaling_period'), ('init_size', '-I', 'autoscaling_initial'),
                          ('min_size', '-X', 'autoscaling_minimum'), ('max_size', '-Y', 'autoscaling_maximum')):
            want = o[f] if f in o else default(X.ClusterApp, X.ClusterApp.interface._option_string_actions[f].dest)
            if kw[n] != want:
                return f'autoscaling-{n}: autoscaler got {kw[n]!r}, requested {want!r}'
        want = c['policy'] or X.ClusterApp.interface._option_string_actions['-A'].const
        if kw['policy'] != want:
            return f'autoscaling-policy: autoscaler got {kw["policy"]!r}, requested {want!r}'
        argvs = [list(kw['launcher'])]
        launcher = shlex.split(c['launcher'] or '')
    else:
        if len(w.launched) != 1 or w.events.count('proc.wait') != 1:
            return f'{who}-launch: {len(w.launched)} launches'
        argvs = [w.launched[0][0]]
        env = w.launched[0][1]
        if env is None or any(env.get(k) != v for k, v in os.environ.items() if not k.startswith('HYPERSHELL')):
            return f'{who}-environment: clients do not inherit the environment'
        launcher = ['mpirun'] if who == 'mpi' else shlex.split(c['launcher'])
    for argv in argvs:
        head = [*launcher, exe, 'client']
        if argv[:len(head)] != head:
            return f'{who}-command: {argv[:len(head) + 1]}, expected {head}'
        k = as_client(argv[len(head):])
        if k is None:
            return f'{who}-argv: client rejects {argv[len(head):]}'
        r = check_client(k, c, who, addr, key, nc)
        if r:
            return r


def check_client_case(c):
    argv = ['-H', c['host'], '-p', str(c['port']), '-k', c['key']]
    for f, v in c['opts'].items():
        argv += [f, str(v)]
    if c['no_confirm']:
        argv.append('--no-confirm')
    if c['capture']:
        argv.append('--capture')
    k = as_client(argv)
    if k is None:
        return f'client-rejected: {argv}'
    for f, n in NAMES.items():
        if f in c['opts'] and (k[n] != c['opts'][f]):
            return f'client-{f}: {n}={k[n]!r}, requested {c["opts"][f]!r}'
    if tuple(k['address']) != (c['host'], c['port']) or k['auth'] != c['key'] or bool(k['no_confirm']) != c['no_confirm'] or bool(k['capture']) != c['capture']:
        return f'client-options: {k}'


def check_server_case(c):
    c = {**c, 'nodb': c['nodb'] and c['run'] == 'plain'}       # contradictory options: C34
    path, fpath = files(c)
    argv = []
    for f, v in c['opts'].items():
        argv += [f, str(v)]
    use_file = c['file'] and c['run'] == 'plain'
    if use_file:
        argv.append(path)
    if c['bind']:
        argv += ['-H', c['bind']]
    if c['key']:
        argv += ['-k', c['key']]
    for k, f in (('eager', '--eager'), ('nodb', '--no-db'), ('no_confirm', '--no-confirm')):
        if c[k]:
            argv.append(f)
    argv += {'plain': [], 'forever': ['--forever'], 'restart': ['--restart']}[c['run']]
    argv += {None: [], 'file': ['-f', fpath], 'print': ['--print']}[c['failures']]
    w = World()
    try:
        run_app(w, S.ServerApp, argv)
    except SystemExit:
        return f'server-rejected: {argv}'
    sv = w.get('ServerThread')
    if len(sv) != 1:
        return f'server-count: {len(sv)}'
    kw = sv[0]
    o = c['opts']
    want = {'eager': c['eager'], 'in_memory': c['nodb'], 'no_confirm': c['no_confirm'], 'forever_mode': c['run'] == 'forever', 'restart_mode': c['run'] == 'restart'}
    want.update({n: o[f] for f, n in (('-b', 'bundlesize'), ('-w', 'bundlewait'), ('-r', 'max_retries')) if f in o and not (f == '-w' and c['run'] == 'forever')})
    if c['key']:
        want['auth'] = c['key']
    for n, v in want.items():
        if kw[n] != v:
            return f'server-{n}: server got {kw[n]!r}, requested {v!r}'
    a = tuple(kw['address'])
    if (c['bind'] and a[0] != c['bind']) or ('-p' in o and a[1] != o['-p']):
        return f'server-address: bound to {a}'
    src, f = kw['source'], kw['redirect_failures']
    if c['run'] != 'plain':
        if src:
            return f'server-source: {src!r} on {c["run"]}'
    elif use_file:
        if getattr(src, 'name', None) != path:
            return f'server-source: {src!r}'
    elif src is not sys.stdin:
        return f'server-source: {src!r}'
    if (c['failures'] is None and f is not None) or (c['failures'] == 'print' and f is not sys.stdout) or (c['failures'] == 'file' and getattr(f, 'name', None) != fpath):
        return f'server-failures: {f!r} for {c["failures"]}'


def check_parts(c):
    """ServerThread and ClientThread hand their options to their components."""
    import random
    rng = random.Random(c['seed'])
    got = {}
    def rec(m, n):
        sig = inspect.signature(getattr(m, n).__init__)
        def f(*a, **k):
            b = sig.bind(None, *a, **k)
            b.apply_defaults()
            got.setdefault(n, []).append(dict(b.arguments))
            r = mock.MagicMock()
            r.vc_name = n
            return r
        return mock.patch.object(m, n, f)
    from contextlib import ExitStack
    v = {n: rng.randint(1, 99) for n in ('bundlesize', 'bundlewait', 'max_retries', 'evict_after')}
    v.update({n: rng.random() < .5 for n in ('forever_mode', 'restart_mode', 'eager')})
    f, src = io.StringIO(), ['x']
    with ExitStack() as st:
        for n in ('SchedulerThread', 'SubmitThread', 'LiveSubmitThread', 'ConfirmThread', 'ReceiverThread', 'HeartMonitorThread'):
            st.enter_context(rec(S, n))
        st.enter_context(mock.patch.object(S, 'DATABASE_ENABLED', True))
        cfgs = []
        st.enter_context(mock.patch.object(S, 'QueueServer', lambda config=None: cfgs.append(config) or mock.MagicMock()))
        S.ServerThread(source=src, in_memory=c['mem'], no_confirm=c['nc'], address=('h', 4), auth='kkk', redirect_failures=f, **v)
    cfg = cfgs[0]
    if (cfg.host, cfg.port, cfg.auth) != ('h', 4, 'kkk'):
        return f'server-config: {cfg}'
    if not c['mem']:
        k = got['SchedulerThread'][0]
        for n in ('bundlesize', 'eager', 'forever_mode', 'restart_mode'):
            if k[n] != v[n]:
                return f'scheduler-{n}: {k[n]!r}, requested {v[n]!r}'
        if k['attempts'] != v['max_retries'] + 1:
            return f'scheduler-attempts: {k["attempts"]} for {v["max_retries"]} retries'
    k = got['LiveSubmitThread' if c['mem'] else 'SubmitThread'][0]
    if k['source'] is not src or k['bundlesize'] != v['bundlesize'] or k['bundlewait'] != v['bundlewait']:
        return f'submitter-options: {k}'
    k = got['ReceiverThread'][0]
    if k['redirect_failures'] is not f or k['in_memory'] != c['mem']:
        return f'receiver-options: {k}'
    k = got['HeartMonitorThread'][0]
    if k['evict_after'] != v['evict_after'] or k['in_memory'] != c['mem'] or k['no_confirm'] != c['nc']:
        return f'monitor-options: {k}'
    if ('ConfirmThread' in got) == c['nc']:
        return f'confirm-thread: {got.get("ConfirmThread")}'
    got.clear()
    o = {'bundlesize': rng.randint(1, 99), 'bundlewait': rng.randint(1, 99), 'heartrate': rng.randint(1, 99), 'template': 'T{}', 'capture': rng.random() < .5,
         'redirect_output': io.StringIO(), 'redirect_errors': io.StringIO(), 'no_confirm': rng.random() < .5, 'client_timeout': rng.choice([None, 5]), 'task_timeout': rng.choice([None, 7]), 'task_signalwait': rng.randint(1, 99)}
    cfgs.clear()
    with ExitStack() as st:
        for n in ('ClientSchedulerThread', 'ClientCollectorThread', 'ClientHeartbeatThread', 'TaskThread'):
            st.enter_context(rec(C, n))
        st.enter_context(mock.patch.object(C, 'QueueClient', lambda config=None: cfgs.append(config) or mock.MagicMock()))
        C.ClientThread(num_tasks=c['n'], address=('h', 5), auth='kkk', **o)
    if (cfgs[0].host, cfgs[0].port, cfgs[0].auth) != ('h', 5, 'kkk'):
        return f'client-config: {cfgs[0]}'
    if len(got['TaskThread']) != c['n']:
        return f'client-executors: {len(got["TaskThread"])} for {c["n"]}'
    for n, m in (('ClientSchedulerThread', {'no_confirm': 'no_confirm', 'timeout': 'client_timeout'}), ('ClientCollectorThread', {'bundlesize': 'bundlesize', 'bundlewait': 'bundlewait'}),
                 ('ClientHeartbeatThread', {'heartrate': 'heartrate'}),
                 ('TaskThread', {'template': 'template', 'capture': 'capture', 'redirect_output': 'redirect_output', 'redirect_errors': 'redirect_errors', 'timeout': 'task_timeout', 'signalwait': 'task_signalwait'})):
        for k in got[n]:
            for x, y in m.items():
                if k[x] is not o[y] and k[x] != o[y]:
                    return f'{n}-{x}: {k[x]!r}, requested {o[y]!r}'


def check(case):
    k = case['kind']
    return {'server': check_server_case, 'client': check_client_case, 'parts': check_parts, 'serve': check_serve}.get(k, check_cluster_app)(case)


def check_serve(case):
    """serve_from, serve_file and serve_forever hand everything to one server."""
    import tempfile
    made = []
    class T:
        def __init__(self, **k): made.append(k)
        @classmethod
        def new(cls, *a, **k):
            k.update(zip(('source',), a))
            return cls(**k)
        def start(self): made.append('start')
        def join(self, timeout=None): made.append('join')
        def stop(self, *a, **k): pass
    v = {'bundlesize': 3, 'bundlewait': 7, 'max_retries': 2, 'evict_after': 99, 'in_memory': True, 'no_confirm': True, 'eager': True,
         'auth': 'kk', 'address': ('h', 5000), 'redirect_failures': object()}
    drop = case['without']
    v = {k: x for k, x in v.items() if k not in drop}
    saved, S.ServerThread = S.ServerThread, T
    lines = None
    try:
        with tempfile.NamedTemporaryFile('w', suffix='.in', dir=lib.scratch()) as f:
            f.write('a\nb\n')
            f.flush()
            S.serve_file(f.name, **v)
    finally:
        S.ServerThread = saved
    if not made or not isinstance(made[0], dict):
        return 'serve: no server is created'
    for k, x in v.items():
        if made[0].get(k) != x:
            return f'serve: {k} is {made[0].get(k)!r}, requested {x!r}'
    if getattr(made[0].get('source'), 'name', None) != f.name:
        return 'serve: the lines of the file are not the source'
