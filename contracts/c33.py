"""C33: the database the program works on.
  DatabaseURL            composed of exactly the settings given, user and password quoted, for every combination of settings and all texts
  get_url, get_engine    the engine is made for that URL
  InitDBApp.run          emptied exactly when confirmed, for every answer; initdb/truncatedb/checkdb/ensuredb by their effects on the tables
  ServerApp, ClusterApp  entering them makes the tables ready
The grammar of URLs and percent quoting (urllib.parse.quote, sqlalchemy.make_url) are assumed contracts: a quoted text holds
no reserved character and is decoded to the text itself."""
from pyvc.models import *
from pyvc.core import z3
from pyvc.values import SymBool, SymStr, uf, veq, LOWER
from pyvc.runtime import concat

S = z3.StringSort()
QUOTE, QUOTE_SLASH, URLENC = uf('quoted', S, S), uf('quoted, slashes kept', S, S), uf('urlencoded', S, S)
STRIPF = None


def lit(*t):
    return [z3.StringVal(x) for x in t]


def quote(text, safe='/', *a, **k):
    if a or k or not isinstance(safe, str):
        raise Unsupported('quote options')
    z = zstr(text)
    if not set(safe) & set(':/?#[]@%+ '):
        return SymStr(QUOTE(z))
    if safe == '/':
        return SymStr(QUOTE_SLASH(z))
    raise Unsupported(f'quote with safe={safe!r}')


def url(c):
    """DatabaseURL(**fields).encode() for every combination of fields."""
    K = mod('data.core')
    provider = ['sqlite', 'postgresql'][c.choose([('sqlite', None), ('postgresql', None)], 'provider')]
    f, given = {'provider': provider}, {}
    for k in ('database', 'file', 'user', 'password', 'host', 'port'):
        how = c.choose([('absent', None), ('given', None)], k)
        given[k] = SymStr(z3.String(k)) if how else None
        if how:
            f[k] = given[k]
    extra = c.choose([('no parameters', None), ('parameters', None)], 'parameters') == 1
    params = {'sslmode': SymStr(z3.String('sslmode'))} if extra else {}
    enc = SymStr(z3.String('urlencoded parameters'))
    got = []
    def urlencode(p, *a, **k):
        if a or k:
            raise Unsupported('urlencode options')
        got.append(p)
        return enc
    isset = {k: given[k] is not None and c.branch(given[k].z != '', f'{k} not empty') for k in given}
    real = {'quote': quote, 'urlencode': urlencode}
    with patched(*[(K, n, v) for n, v in real.items() if hasattr(K, n)]):
        try:
            u = K.DatabaseURL(**f, **params)
            text = u.encode()
            raised = None
        except AttributeError as e:
            raised = e
    g = lambda k: given[k] is not None
    if provider == 'sqlite':
        bad = g('file') and g('database') or any(g(k) for k in ('user', 'password', 'host', 'port'))
    else:
        bad = isset['file'] or not isset['database'] or g('user') != g('password')
    if raised is not None:
        c.prove('url: refused only if the settings make no sense together', bad, str(raised))
        c.cover('url refused')
        return
    c.prove('url: settings that make no sense together are refused', not bad)
    def want(quoted_password):
        parts = [provider + '://']
        if isset['user'] and isset['password']:
            parts += [SymStr(QUOTE(given['user'].z)), ':', SymStr(quoted_password(given['password'].z)), '@']
        if isset['host']:
            parts += [given['host']] + ([':', given['port']] if isset['port'] else [])
        elif isset['port']:
            parts += ['localhost:', given['port']]
        elif isset['user'] or isset['password']:
            parts += ['localhost']
        if isset['database']:
            parts += ['/', given['database']]
        elif isset['file']:
            parts += ['/', given['file']]
        return concat(parts + (['?', enc] if extra else []))
    ok = [x.z if isinstance(x, SymBool) else z3.BoolVal(bool(x)) for x in (veq(text, want(q)) for q in (QUOTE, QUOTE_SLASH))]
    c.prove('url: exactly the settings given, user and password quoted', z3.Or(*ok), f'{text}')
    c.prove('url: with exactly the parameters given', got == ([params] if extra else []) or got and all(p is not None and dict(p) == params for p in got) and extra)
    c.cover(f'url {provider}')


def namespace(c):
    """from_namespace: every setting, expanded, under its own name."""
    K = mod('data.core')
    asked = []
    vals = {k: SymStr(z3.String(k)) for k in ('provider', 'password', 'host', 'sslmode', 'my_environment', 'file')}
    class Ns:
        @staticmethod
        def keys():
            return ['provider', 'password_env', 'host_eval', 'sslmode', 'my_environment', 'file']
        def __iter__(self): return iter(self.keys())
        def __getattr__(self, a):
            if a not in vals:
                raise AttributeError(a)
            asked.append(a)
            return vals[a]
    class URL(K.DatabaseURL):
        def __init__(self, **f):
            dict.__init__(self, f)
    r = URL.from_namespace(Ns())
    c.prove('settings: every setting with its own value', set(dict.keys(r)) == set(vals) and all(dict.__getitem__(r, k) is vals[k] for k in vals))


def engine(c):
    """get_url and get_engine."""
    K = mod('data.core')
    from cmdkit.config import Namespace
    kind = ['sqlite', 'postgres', 'postgresql', 'oracle'][c.choose([(k, None) for k in ('sqlite', 'postgres', 'postgresql', 'oracle')], 'provider')]
    broken = c.choose([('valid', None), ('invalid', None)], 'settings') == 1
    made, engines = [], []
    text = Module(name='url text')
    class URL:
        def encode(self): return text
        @staticmethod
        def from_namespace(ns):
            made.append(dict(ns))
            if broken:
                raise AttributeError('invalid')
            return URL()
    def create(*a, **k):
        engines.append((a, k))
        return 'engine'
    ca = {'x': 1}
    with patched((K, 'config', Namespace({'provider': kind, 'file': 'f', 'other': 1})), (K, 'DatabaseURL', URL), (K, 'create_engine', create), (K, 'connect_args', ca), (K, 'engine_config', {'poolclass': 'p'}), (K, 'engine_echo', False)):
        try:
            r = K.get_engine()
        except K.ConfigurationError:
            c.prove('engine: refused only if the settings are invalid', kind == 'oracle' or broken)
            c.prove('engine: none is made then', not engines)
            c.cover('engine refused')
            return
        except KeyError:
            c.prove('engine: an unsupported provider is refused with a configuration error', False)
            return
    c.prove('engine: invalid settings are refused', kind != 'oracle' and not broken)
    c.prove('engine: the settings themselves with the provider by its name', made == [{'provider': {'postgres': 'postgresql'}.get(kind, kind), 'file': 'f', 'other': 1}])
    c.prove('engine: one engine for this URL', r == 'engine' and len(engines) == 1 and engines[0][0] == (text,) and engines[0][1] == {'connect_args': ca, 'poolclass': 'p'}, f'{engines}')
    c.cover('engine')


class Tables:
    """The tables of the database by what is done to them."""
    def __init__(self, D, log):
        self.D = D
        def act(n):
            def f(*a, **k):
                if list(a) + list(k.values()) != [D.engine]:
                    raise Unsupported(f'{n} options')
                log.append(n)
            return f
        self.entity = Module(metadata=Module(create_all=act('create'), drop_all=act('drop')))


def tables(c):
    """initdb, truncatedb, checkdb."""
    D = mod('data')
    log = []
    t = Tables(D, log)
    there = c.choose([('missing', None), ('there', None)], 'tables') == 1
    asked = []
    def has_table(name, **k):
        asked.append((name, k))
        return there
    insp = []
    def inspect(e):
        insp.append(e)
        return Module(has_table=has_table)
    def closed():
        log.append('close')
    with patched((D, 'Entity', t.entity), (D, 'close_all_sessions', closed), (D, 'inspect', inspect), (D, 'log', NullLog())):
        D.initdb()
        c.prove('initdb: missing tables are created and nothing is dropped', 'create' in log and set(log) == {'create'}, f'{log}')
        log.clear()
        D.truncatedb()
        c.prove('truncate: the tables are dropped and made again, after the sessions are closed', log.count('drop') == 1 and 'create' in log[log.index('drop'):] and 'close' in log[:log.index('drop')], f'{log}')
        log.clear()
        try:
            D.checkdb()
            raised = False
        except D.DatabaseUninitialized:
            raised = True
    c.prove('check: an uninitialized database is an error, anything else is not', raised != there)
    c.prove('check: changes nothing', not log)
    c.prove('check: of this database', insp and all(e is D.engine for e in insp) and all(x == ('task', {'schema': D.schema}) for x in asked) and bool(asked), f'{asked}')
    c.cover(f'tables {there}')


class Conf(dict):
    def __getattr__(self, a):
        try:
            return self[a]
        except KeyError:
            raise AttributeError(a)


def settings(c, sqlite_only=False):
    kind = c.choose([(k, None) for k in ('sqlite without file', 'sqlite in memory', 'sqlite blank', 'sqlite file', 'sqlite database', 'postgres')], 'database')
    d = [{'provider': 'sqlite'}, {'provider': 'sqlite', 'file': ':memory:'}, {'provider': 'sqlite', 'file': ''}, {'provider': 'sqlite', 'file': '/f.db'}, {'provider': 'sqlite', 'database': '/f.db'}, {'provider': 'postgres', 'database': 'main'}][kind]
    return kind, Conf(database=Conf(d))


def ensure(c):
    D = mod('data')
    log = []
    kind, conf = settings(c)
    how = c.choose([('default', None), ('auto', None), ('not auto', None)], 'auto')
    kw = [{}, {'auto_init': True}, {'auto_init': False}][how]
    with patched((D, 'config', conf), (D, 'initdb', lambda: log.append('init')), (D, 'checkdb', lambda: log.append('check'))):
        try:
            D.ensuredb(**kw)
        except D.ConfigurationError:
            c.prove('ensure: refused only without database', kind < 3)
            c.prove('ensure: nothing is done then', not log)
            c.cover('ensure refused')
            return
    c.prove('ensure: a missing database is refused', kind >= 3)
    c.prove('ensure: tables are created for SQLite or if asked to, and checked otherwise', log == ['init'] if kind != 5 or how == 1 else log == ['check'], f'{log}')
    c.cover(f'ensure {kind} {how}')


def initdb_run(c):
    D = mod('data')
    log, asked, out = [], [], []
    kind, conf = settings(c)
    class Out:
        def isatty(self): return tty
        def vc_print(self, args, kw): out.append(args)
    stdout = Out()
    c.env['stdout'] = stdout
    enabled = kind >= 3
    tty = c.choose([('no terminal', None), ('terminal', None)], 'tty') == 1
    app = object.__new__(D.InitDBApp)
    app.truncate = c.choose([('plain', None), ('truncate', None)], 'truncate') == 1
    app.auto_confirm = c.choose([('ask', None), ('yes', None)], 'yes') == 1
    answer = SymStr(z3.String('answer'))
    def ask(*a):
        asked.append(a)
        if len(asked) > 1:
            raise Unsupported('asks again')
        return answer
    c.env['input'] = ask
    n = SymInt(z3.Int('tasks'))
    c.assume(n.z >= 0)
    with patched((D, 'DATABASE_ENABLED', enabled), (D, 'config', conf), (D, 'initdb', lambda: log.append('init')), (D, 'truncatedb', lambda: log.append('truncate')),
                 (D, 'Task', Module(count=lambda *a, **k: n)), (D, 'sys', Module(stdout=stdout))):
        try:
            app.run()
            raised = None
        except (D.ConfigurationError, RuntimeError) as e:
            raised = e
    if not enabled:
        c.prove('initdb: without database nothing is done', raised is not None and not log)
        c.cover('initdb no database')
        return
    if not app.truncate:
        c.prove('initdb: only missing tables are created', log == ['init'] and raised is None and not asked)
        c.cover('initdb plain')
        return
    if app.auto_confirm:
        c.prove('truncate: confirmed in advance', log == ['truncate'] and raised is None and not asked)
        c.cover('truncate yes')
        return
    if not tty:
        c.prove('truncate: never without confirmation', not log and raised is not None and not asked)
        c.cover('truncate no terminal')
        return
    t = LOWER(answer.strip().z)
    any_of = lambda *x: z3.Or(*[t == z3.StringVal(s) for s in x])
    c.prove('truncate: asked once', len(asked) == 1)
    yes, no = any_of('', 'y', 'yes'), any_of('n', 'no')
    c.prove('truncate: exactly after an affirmative answer', yes if log == ['truncate'] else z3.And(z3.Not(yes), z3.BoolVal(not log)), f'{log}')
    c.prove('truncate: any other answer is an error', z3.Not(z3.Or(yes, no)) if raised is not None else z3.Or(yes, no))
    c.cover(f'truncate asked {bool(log)} {raised is not None}')


def arguments(c):
    D = mod('data')
    acts = {o: a.dest for a in D.InitDBApp.interface._actions for o in a.option_strings if a.dest != 'help'}
    c.prove('initdb: options', acts == {'-t': 'truncate', '--truncate': 'truncate', '-y': 'auto_confirm', '--yes': 'auto_confirm'} and D.InitDBApp.truncate is False and D.InitDBApp.auto_confirm is False, f'{acts}')


def server_enter(c):
    SV = mod('server')
    log = []
    app = object.__new__(SV.ServerApp)
    app.in_memory = c.choose([('database', None), ('--no-db', None)], 'db') == 1
    app.auto_initdb = c.choose([('no', None), ('--initdb', None)], 'init') == 1
    app.check_args = lambda: log.append('args')
    def ensure(*a, **k):
        log.append(('ensure', bind(mod('data').ensuredb, a, k)['auto_init']))
    ret = None
    with patched((SV, 'ensuredb', ensure)):
        ret = app.__enter__()
    c.prove('server: arguments are checked and the database is made ready unless it is disabled', log == ['args'] + ([] if app.in_memory else [('ensure', app.auto_initdb)]), f'{log}')
    c.prove('server: entered', ret is app)
    c.cover(f'server {app.in_memory} {app.auto_initdb}')


def cluster_enter(c):
    CL = mod('cluster')
    log = []
    kind, conf = settings(c)
    app = object.__new__(CL.ClusterApp)
    app.in_memory = c.choose([('database', None), ('--no-db', None)], 'db') == 1
    app.auto_initdb = c.choose([('no', None), ('--initdb', None)], 'init') == 1 if not app.in_memory else False
    app.check_arguments = lambda: log.append('args')
    with patched((CL, 'config', conf), (CL, 'initdb', lambda: log.append('init')), (CL, 'checkdb', lambda: log.append('check'))):
        ret = app.__enter__()
    c.prove('cluster: arguments are checked first', log[:1] == ['args'] and log.count('args') == 1)
    rest = log[1:]
    if app.in_memory:
        c.prove('cluster: without database it is not required to be there', 'check' not in rest and rest in ([], ['init']))
    else:
        c.prove('cluster: tables are created for SQLite or if asked to, and checked otherwise', rest == (['init'] if kind != 5 or app.auto_initdb else ['check']), f'{log}')
    c.prove('cluster: entered', ret is app)
    c.cover(f'cluster {app.in_memory} {app.auto_initdb}')


def leave(which):
    """Leaving closes exactly the files that were opened."""
    def body(c):
        M = mod(which)
        class Stream:
            def __init__(self, name): self.name, self.closed = name, 0
            def close(self): self.closed += 1
            def flush(self): pass
        std = {n: Stream(n) for n in ('stdin', 'stdout', 'stderr')}
        names = {'server': {'input_stream': ('stdin', None), 'failure_stream': ('stdout', None)},
                 'cluster': {'input_stream': ('stdin', None), 'output_stream': ('stdout',), 'errors_stream': ('stderr',), 'failure_stream': (None,)}}[which]
        app = object.__new__(M.ServerApp if which == 'server' else M.ClusterApp)
        mine = {}
        for n, options in names.items():
            k = c.choose([('file', None)] + [(str(o), None) for o in options], n)
            s = mine[n] = Stream(n) if k == 0 else std[options[k - 1]] if options[k - 1] else None
            app.__dict__[n] = s
        app.failure_path = '-' if mine['failure_stream'] is std['stdout'] else 'failed.txt' if mine['failure_stream'] else None
        app.filepath = '-' if mine['input_stream'] is std['stdin'] else 'in.txt' if mine['input_stream'] else None
        with patched((M, 'sys', Module(**std))):
            app.__exit__(None, None, None)
        c.prove(f'{which}: no standard stream is closed', not any(s.closed for s in std.values()))
        c.prove(f'{which}: every file it opened is closed', all(s.closed for s in mine.values() if s is not None and s not in std.values()))
        c.cover(f'left {which}')
    return body


def masked(c):
    """The printed representation of the settings tells whether there is a password, never which."""
    K = mod('data.core')
    how = c.choose([('password', None), ('none', None)], 'password')
    f = {'provider': 'postgresql', 'database': 'db', 'host': 'h', 'port': 5432}
    if how == 0:
        f['user'], f['password'] = 'me', SymStr(z3.String('password'))
        c.assume(f['password'].z != '')
    u = K.DatabaseURL(**f, sslmode='require')
    text = repr(u)
    c.prove('representation: the password is not shown', isinstance(text, str))
    c.prove('representation: the other settings are', isinstance(text, str) and all(repr(v) in text for k, v in f.items() if k != 'password') and 'require' in text)
    c.prove('representation: leaves the settings as they are', u.password is f.get('password'))
    c.prove('text: the composed address', how == 0 or str(u) == u.encode())
    c.cover(f'masked {how}')


def run(rep):
    rep.run('DatabaseURL.__repr__', masked, covers=['masked 0', 'masked 1'])
    rep.run('ServerApp.__exit__', leave('server'), covers=['left server'])
    rep.run('ClusterApp.__exit__', leave('cluster'), covers=['left cluster'])
    rep.run('DatabaseURL.encode', url, covers=['url refused', 'url sqlite', 'url postgresql'])
    rep.run('DatabaseURL.from_namespace', namespace)
    rep.run('get_engine', engine, covers=['engine', 'engine refused'])
    rep.run('initdb', tables, covers=['tables True', 'tables False'])
    rep.run('ensuredb', ensure, covers=['ensure refused'] + [f'ensure {k} {h}' for k in (3, 4, 5) for h in (0, 1, 2)])
    rep.run('InitDBApp.run', initdb_run, covers=['initdb no database', 'initdb plain', 'truncate yes', 'truncate no terminal', 'truncate asked True False', 'truncate asked False False', 'truncate asked False True'])
    rep.run('InitDBApp.interface', arguments)
    rep.run('ServerApp.__enter__', server_enter, covers=['server False False', 'server False True', 'server True False'])
    rep.run('ClusterApp.__enter__', cluster_enter, covers=['cluster False False', 'cluster False True', 'cluster True False'])
