"""C33 on the real code: connection URLs of generated settings are decoded by SQLAlchemy; `hs initdb` is run on a real
SQLite database with every kind of answer; commands are entered with and without tables, database and option."""
import builtins
import io
import os
import random
import subprocess
import sys
from concrete import lib, dblib
from concrete.dblib import wipe, make, put, sql, table
import hypershell.data as D
import hypershell.data.core as K
from hypershell.data.model import Task
from cmdkit.config import Namespace, ConfigurationError
from sqlalchemy.engine import make_url

PARTS = ['u', 'me', 'p@ss', 'a:b', 'x/y', '100%', '%41', 'q?r', '#h', 'two words', 'é', '[z]', '+', '&=', ';', '\\', '"', "it's", '', '@', ':', '/', '%', '%%20', 'long' * 20, '0']
FILES = ['rel.db', '/abs/path.db', '/with space/x.db', '/é/#1.db', '/p%20q.db', 'a:b.db', '/x@y.db', '/a&b=c.db', './d/../e.db', "/it's.db", ':memory:']
DBS = ['main', 'my db', 'a-b', 'x%y', 'é']
HOSTS = ['localhost', 'db.example.org', '10.0.0.1', '[::1]', 'h-1']
ANSWERS = ['', 'y', 'yes', 'Y', 'YES', ' yes ', 'n', 'no', 'N', 'No', ' no', 'x', 'yesno', 'ye', 'nope', '1', 'true', 'yes please', '\t', 'y y', 'ja', 'on', 'YeS', '-', 'quit']


def cases(rng, tier):
    for p in PARTS:
        yield {'kind': 'url', 'fields': {'provider': 'postgresql', 'database': 'd', 'user': p, 'password': 'x'}}
        yield {'kind': 'url', 'fields': {'provider': 'postgresql', 'database': 'd', 'user': 'u', 'password': p}}
    for p in ('oracle', 'mysql', 'SQLite', ''):
        yield {'kind': 'url', 'fields': {'provider': p, 'database': 'd'}}
    for f in FILES:
        yield {'kind': 'url', 'fields': {'provider': 'sqlite', 'file': f}}
        yield {'kind': 'url', 'fields': {'provider': 'sqlite', 'database': f}}
    for a in ANSWERS:
        yield {'kind': 'initdb', 'args': ['--truncate'], 'tty': True, 'answer': a, 'tasks': 3}
        yield {'kind': 'initdb', 'args': ['--truncate'], 'tty': True, 'answer': a, 'tasks': 2, 'key': 'database'}
    for args in ([], ['--truncate'], ['--truncate', '--yes'], ['--yes'], ['-t'], ['-t', '-y'], ['-y']):
        for tty in (True, False):
            for n in (0, 3):
                for t in (True, False, 'task'):
                    yield {'kind': 'initdb', 'args': args, 'tty': tty, 'answer': 'no', 'tasks': n, 'tables': t}
    for cmd in ('initdb', 'submit', 'list', 'server', 'cluster', 'server --no-db', 'cluster --no-db'):
        for db in ('none', 'new', 'used', 'memory'):
            yield {'kind': 'process', 'cmd': cmd, 'db': db}
    for who in ('ensuredb', 'server', 'cluster', 'submit'):
        for provider in ('sqlite', 'postgres'):
            for tables in (True, False):
                for auto in (False, True):
                    for nodb in ((False, True) if who in ('server', 'cluster') and not auto else (False,)):
                        yield {'kind': 'ready', 'who': who, 'provider': provider, 'tables': tables, 'auto': auto, 'nodb': nodb}
    for who in ('server', 'cluster'):
        for inp in ('-', 'file'):
            for fail in (None, '-', 'file', '--print'):
                if who == 'server' or fail in (None, 'file'):
                    yield {'kind': 'leave', 'who': who, 'input': inp, 'failures': fail}
    while True:
        r = rng.random()
        if r < .7:
            f = {'provider': rng.choice(['postgresql', 'postgres', 'sqlite'])}
            for k, vs in (('database', DBS), ('file', FILES), ('user', PARTS), ('password', PARTS), ('host', HOSTS), ('port', [5432, '6000', 1])):
                if rng.random() < (.5 if k not in ('file',) else .5 if f['provider'] == 'sqlite' else .1):
                    f[k] = rng.choice(vs)
            if f['provider'] == 'sqlite' and rng.random() < .9:
                f = {k: v for k, v in f.items() if k in ('provider', rng.choice(['file', 'database']))}
            for k in ('sslmode', 'application_name', 'options'):
                if rng.random() < .15:
                    f[k] = rng.choice(['require', 'a b', 'x&y=z', '100%', 'é', '?', '#'])
            yield {'kind': 'url', 'fields': f, 'env': [k for k in f if k in ('password', 'user', 'host') and rng.random() < .2], 'full': rng.random() < .5}
        elif r < .95:
            yield {'kind': 'initdb', 'args': rng.choice([['--truncate'], ['--truncate'], ['-t', '--yes'], []]), 'tty': rng.random() < .8, 'answer': rng.choice(ANSWERS) if rng.random() < .7 else ''.join(rng.choice('yYeEsSnNoO ') for _ in range(rng.randrange(5))), 'tasks': rng.randrange(5), 'tables': rng.choice([True] * 8 + [False, 'task'])}
        else:
            yield {'kind': 'ready', 'who': rng.choice(['ensuredb', 'server', 'cluster', 'submit']), 'provider': rng.choice(['sqlite', 'postgres']), 'tables': rng.random() < .5, 'auto': rng.random() < .4, 'nodb': False}


def refused(f):
    """Combinations that make no sense."""
    g = lambda k: f.get(k)
    if f['provider'] == 'sqlite':
        return g('file') is not None and g('database') is not None or any(g(k) is not None for k in ('user', 'password', 'host', 'port'))
    return bool(g('file')) or not g('database') or (g('user') is None) != (g('password') is None)


PROVIDERS = ('sqlite', 'postgres', 'postgresql')


def check_url(case):
    f = case['fields']
    if f['provider'] not in PROVIDERS:
        return check_provider(f)
    real = {'postgres': 'postgresql'}.get(f['provider'], f['provider'])
    ns, env = {}, {}
    for k, v in f.items():
        if k in case.get('env', ()):
            ns[f'{k}_env'], env[f'VERIF_{k}'] = f'VERIF_{k}', str(v)
        else:
            ns[k] = v
    ns['provider'] = real
    os.environ.update(env)
    try:
        if case.get('full'):
            saved, K.config = K.config, Namespace({**ns, 'provider': f['provider']})
            try:
                url = K.get_url()
            finally:
                K.config = saved
        else:
            url = K.DatabaseURL.from_namespace(Namespace(ns))
    except (AttributeError, ConfigurationError) as e:
        return None if refused(f) else f'url refused: {f} is refused: {e}'
    finally:
        for k in env:
            os.environ.pop(k)
    if refused(f):
        return f'url accepted: {f} is accepted as {url.encode()}'
    try:
        u = make_url(url.encode())
    except Exception as e:
        return f'url: {f} cannot be parsed: {e}'
    s = lambda v: None if v in (None, '') else str(v)
    given = bool(f.get('user')) and bool(f.get('password'))
    local = real != 'sqlite' and (bool(f.get('user')) or bool(f.get('password')) or bool(f.get('port')))
    want = (real, s(f.get('user')) if given else None, s(f.get('password')) if given else None, (s(f.get('host')) or ('localhost' if local else None) or '').strip('[]') or None, int(f['port']) if f.get('port') else None, s(f.get('database')) or s(f.get('file')),
            {k: v for k, v in f.items() if k in ('sslmode', 'application_name', 'options')})
    got = (u.drivername, s(u.username), s(u.password), u.host, u.port, s(u.database), dict(u.query))
    if got != want:
        return f'url: {f} denotes {got} instead of {want}'
    if f.get('password') and len(f['password']) > 4 and f['password'] in repr(url) and f['password'] not in str([v for k, v in f.items() if k != 'password']):
        return f'url: the password is shown in {url!r}'


class Tty(io.StringIO):
    tty = True
    def isatty(self): return self.tty


def tables():
    return {r[0] for r in sql("select name from sqlite_master where type='table'")}


def clear(with_tables, n):
    D.Entity.metadata.create_all(D.engine)
    wipe()
    put([make(i, 'new', random.Random(i)) for i in range(n)])
    if with_tables is not True:
        from hypershell.data.model import Session
        Session.remove()
        for t in ('client',) if with_tables else ('task', 'client'):
            sql(f'drop table {t}')


def check_initdb(case):
    t0 = case.get('tables', True)
    n = case['tasks'] if t0 else 0
    clear(t0, n)
    before = table() if t0 else {}
    so, si, inp = sys.stdout, sys.stdin, builtins.input
    out = Tty()
    out.tty = case['tty']
    asked = []
    def ask(prompt=''):
        asked.append(prompt)
        if len(asked) > 3:
            raise EOFError
        return case['answer']
    real = D.config
    if case.get('key'):
        D.config = Namespace({**real, 'database': {'provider': 'sqlite', case['key']: dblib.DBFILE}})
    sys.stdout, builtins.input, sys.stdin = out, ask, io.StringIO('\n'.join([case['answer']] * 4) + '\n')
    try:
        status = D.InitDBApp.main(list(case['args']))
    finally:
        sys.stdout, sys.stdin, builtins.input = so, si, inp
        D.config = real
    truncate = bool({'--truncate', '-t'} & set(case['args']))
    yes = bool({'--yes', '-y'} & set(case['args']))
    a = case['answer'].strip().lower()
    emptied = truncate and (yes or case['tty'] and a in ('', 'y', 'yes'))
    declined = truncate and not yes and case['tty'] and a in ('n', 'no')
    bad = truncate and not yes and not emptied and not declined
    if not tables() >= {'task', 'client'}:
        if t0 is not True and (bad or declined or truncate and not t0 and not yes):
            changed = t0 and table() != before
            clear(True, 0)
            return 'truncate: tasks are gone' if changed else None
        clear(True, 0)
        return f'initdb: tables are missing after initdb {case["args"]}'
    after = table()
    if emptied and after:
        return f'truncate: {len(after)} tasks are left after a confirmed truncation'
    if not emptied and after != before:
        return f'truncate: the stored tasks changed without confirmation (initdb {case["args"]}, tty={case["tty"]}, answer {case["answer"]!r})'
    if bad and status == 0 and t0:
        return f'truncate: {"answer " + repr(case["answer"]) if case["tty"] else "no terminal"} is no error'
    if not bad and status != 0:
        return f'initdb: {case["args"]} fails with {status}'


def check_ready(case):
    clear(case['tables'], 2)
    before = table() if case['tables'] else {}
    who, auto, nodb = case['who'], case['auto'], case['nodb']
    import hypershell.server as SV
    import hypershell.cluster as CL
    import hypershell.submit as SB
    real = D.config.database
    prov = 'sqlite' if case['provider'] == 'sqlite' else 'postgresql'
    fake = Namespace({**D.config, 'database': {'provider': prov, **({'file': dblib.DBFILE} if prov == 'sqlite' else {'database': 'main'})}})
    mods = [m for m in (D, SV, CL, SB) if hasattr(m, 'config')]
    saved = [m.config for m in mods]
    for m in mods:
        m.config = fake
    src = os.path.join(lib.scratch(), 'tasks.in')
    open(src, 'w').close()
    try:
        if who == 'ensuredb':
            D.ensuredb(auto_init=auto) if auto else D.ensuredb()
        else:
            App = {'server': SV.ServerApp, 'cluster': CL.ClusterApp, 'submit': SB.SubmitApp}[who]
            argv = [src] + (['--initdb'] if auto else []) + (['--no-db'] if nodb else [])
            app = App.from_cmdline(argv)
            app.__enter__()
            for n in ('input_stream', 'source'):
                s = getattr(app, n, None)
                if hasattr(s, 'close') and s is not sys.stdin:
                    s.close()
        raised = None
    except Exception as e:
        raised = e
    finally:
        for m, c in zip(mods, saved):
            m.config = c
    have = tables() >= {'task', 'client'}
    after = table() if have else {}
    if not have:
        clear(True, 0)
    name = f'{who} ({prov}, auto={auto}, no-db={nodb}, tables={case["tables"]})'
    if case['tables'] and after != before:
        return f'ready: {name}: stored tasks changed'
    create = prov == 'sqlite' or auto
    if nodb:
        return f'ready: {name} fails: {raised!r}' if raised is not None else None
    if create and (raised is not None or not have):
        return f'ready: {name}: tables not there: {raised!r}'
    if not create and case['tables'] and raised is not None:
        return f'ready: {name} fails: {raised!r}'
    if not create and not case['tables'] and (not isinstance(raised, D.DatabaseUninitialized) or have):
        return f'ready: {name}: an uninitialized database is not reported: {raised!r}'


def check_leave(case):
    """Standard streams are still open after a command, its own files are closed."""
    import hypershell.server as SV
    import hypershell.cluster as CL
    clear(True, 0)
    src, dst = os.path.join(lib.scratch(), 'tasks.in'), os.path.join(lib.scratch(), 'failed.out')
    open(src, 'w').close()
    argv = ['-' if case['input'] == '-' else src]
    argv += {None: [], '-': ['-f', '-'], 'file': ['-f', dst], '--print': ['--print']}[case['failures']]
    so, si, se = sys.stdout, sys.stdin, sys.stderr
    sys.stdout, sys.stdin, sys.stderr = Tty(), io.StringIO(''), Tty()
    std = (sys.stdout, sys.stdin, sys.stderr)
    try:
        app = {'server': SV.ServerApp, 'cluster': CL.ClusterApp}[case['who']].from_cmdline(argv)
        app.__enter__()
        mine = [getattr(app, n) for n in ('input_stream', 'failure_stream')]
        app.__exit__(None, None, None)
    finally:
        sys.stdout, sys.stdin, sys.stderr = so, si, se
    if any(s.closed for s in std):
        return f'leave: {case["who"]} {argv} closes a standard stream'
    if any(s is not None and s not in std and not s.closed for s in mine):
        return f'leave: {case["who"]} {argv} leaves a file open'


CODE = '''
import sys, io
cmd = sys.argv[1]
import hypershell
from hypershell.data import InitDBApp
if cmd == 'initdb':
    sys.exit(InitDBApp.main([]))
from hypershell.submit import SubmitApp
from hypershell.task import TaskSearchApp
from hypershell.server import ServerApp
from hypershell.cluster import ClusterApp
open('in.txt', 'w').write('true\\n')
if cmd == 'submit':
    sys.exit(SubmitApp.main(['in.txt']))
if cmd == 'list':
    sys.exit(TaskSearchApp.main(['--count']))
name, *opt = cmd.split()
app = {'server': ServerApp, 'cluster': ClusterApp}[name].from_cmdline(['in.txt', *opt])
with app:
    pass
'''


def check_process(case):
    """Whole processes: no database, a new file, a file in use, an in-memory database."""
    import shutil, sqlite3
    root = os.path.join(lib.scratch(), 'c33')
    shutil.rmtree(root, ignore_errors=True)
    home, site = os.path.join(root, 'home'), os.path.join(root, 'site')
    os.makedirs(home), os.makedirs(site)
    env = {k: v for k, v in os.environ.items() if not k.startswith(('HYPERSHELL', 'VERIF_'))}
    env.update(HOME=home, HYPERSHELL_SITE=site, PYTHONPATH=os.path.join(lib.REPO, 'src'), PYTHONDONTWRITEBYTECODE='1')
    f = os.path.join(root, 'my tasks.db')
    if case['db'] in ('new', 'used'):
        env['HYPERSHELL_DATABASE_FILE'] = f
    if case['db'] == 'memory':
        env['HYPERSHELL_DATABASE_FILE'] = ':memory:'
    run = lambda cmd: subprocess.run([sys.executable, '-c', CODE, cmd], cwd=root, env=env, capture_output=True, text=True, stdin=subprocess.DEVNULL)
    count = lambda: sqlite3.connect(f).execute('select count(*) from task').fetchone()[0]
    if case['db'] == 'used':
        r = run('submit')
        if r.returncode or count() != 1:
            return f'process: submit fails: {r.stderr[-300:]}'
    r = run(case['cmd'])
    name = f'process: {case["cmd"]} with database {case["db"]}'
    if case['db'] in ('none', 'memory'):
        fails = case['cmd'] in ('initdb', 'submit', 'list', 'server')
        if (r.returncode != 0) != fails:
            return f'{name} gives {r.returncode}: {r.stderr[-300:]}'
        return None
    if r.returncode:
        return f'{name} fails: {r.stderr[-300:]}'
    if case['cmd'] == 'server --no-db' and case['db'] == 'new':
        return None
    n = (case['db'] == 'used') + (case['cmd'] == 'submit')
    if not os.path.exists(f) or count() != n:
        return f'{name}: the configured file does not hold the {n} tasks'
    if case['cmd'] == 'list' and r.stdout.strip() != str(n):
        return f'{name} prints {r.stdout!r}'


def check(case):
    return {'url': check_url, 'initdb': check_initdb, 'ready': check_ready, 'process': check_process, 'leave': check_leave}[case['kind']](case)


def check_provider(f):
    """A provider that is not supported is refused with a configuration error."""
    saved, K.config = K.config, Namespace(f)
    try:
        return f'provider accepted: {K.get_url()}'
    except ConfigurationError:
        return None
    except Exception as e:
        return f'provider: {f} ends in {e!r} instead of a configuration error'
    finally:
        K.config = saved
