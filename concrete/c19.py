"""C19 on the real code: `hs config set` on generated configuration files (read back with Python's own TOML reader and by
the program), effective configuration of generated sources, whole processes."""
import functools
import json
import math
import os
import subprocess
import sys
import tomllib
from concrete import lib
os.environ['HOME'] = os.path.join(lib.scratch(), 'home')
os.makedirs(os.environ['HOME'], exist_ok=True)
lib.setup(fake_clock=False)
import hypershell.core.config as C
import hypershell.config as HC
from hypershell.core.platform import path
from cmdkit.config import Namespace

FILES = {s: os.path.join(lib.scratch(), s, 'config.toml') for s in ('system', 'user', 'local')}
for _s, _f in FILES.items():
    path[_s].config = _f                 # nothing below is ever written to the real places
LAYOUTS = ['', 'x = 1\n', '[a]\nb = 1\n', '[a]\nb = 1', '[a]\nx=1\n[b]\ny=1\n[a.c]\nz=1\n', 'a.b.c = 1\n', '[a]\nb.c = 2\n', 'a = {b = 1, c = "x"}\n', '# c\n[a] # x\nb = [1,\n 2]\n', '[a.b]\nc=1\n\n[a]\nd=2\n',
           '[server]\n# hello\nport = 1 # c\n\n[client]\nx = "y"\n', '[a.b.c]\nd=1\n[q]\nz=1\n[a.b.e]\nf=1\n', '[a]\nb = 1\r\nc=2\r\n', '[a]\n  b = 1\n  [a.c]\n  d = 1\n', '[export]\nPATH=["x","y"]\n', '[a]\nb="x"\n\n\n',
           '"two words" = {}\n', "x='''\nabc\n'''\n[a]\nt=\"\"\"\nq\\\nw\n\"\"\"\n", 'd=2020-01-01T00:00:00Z\n[a]\n', '[a]\nb = []\nc = [{x=1},{x=2}]\n', '[a]\nb = {c = {d = 1}}\nx = nan\n', '# only a comment\n', '[a]\n[a.b]\n[a.b.c]\n', None]
KEYS = ['a', 'b', 'c', 'server', 'x-y', 'my_var']
ODD = ['é', '1', 'two words', 'q"t', 'A', 'back\\s', '#h', 'tab\t', "sq'", '']
VALUES = ['1', '-5', '1.5', '1e5', '1e300', 'nan', 'inf', '-inf', 'true', 'FALSE', 'text', '', 'with "q"', '"', '"""', "'", "it's", 'back\\slash', '\\x41', '\\u0041', 'C:\\new\\table', 'line\nbreak', 'tab\t', 'é', '# no', '[x]', 'a = 1', "'''", 'ends\\', '\\\\',
          '\x07', '007', '0x10', '1_000', '2020-01-01', '12:30:00', '2020-01-01T00:00:00Z', '\r\n', ' lead', 'trail ', '\u2028', '😀', '{a}', '%(x)s', '%d', '1.', '.5', '\\"', '1e16', '1e-7', '123456789012345678901234567890', 'nonesuch', 'trues', '-0', '+5', ' 12 ', 'Infinity', '1,5', '\udcff', 'null', 'None', '[]', '{}', 'yes']


def q(k):
    return k if k and all(ch.isascii() and (ch.isalnum() or ch in '-_') for ch in k) else json.dumps(k)


def rval(rng, d=0):
    r = rng.random()
    if d < 2 and r < .1:
        return '[' + ', '.join(rval(rng, d + 1) for _ in range(rng.randrange(3))) + ']'
    if d < 2 and r < .2:
        return '{' + ', '.join(q(k) + ' = ' + rval(rng, d + 1) for k in sorted({rng.choice(KEYS) for _ in range(rng.randrange(3))})) + '}'
    return rng.choice(['1', '-2', '1.5', 'nan', 'true', '"x"', "'y'", '"\\u00e9"', '1979-05-27', '07:32:00', '1979-05-27T07:32:00Z', '0xff', '1_000', '"""\na\n\\\n  b"""', "'''\nz'''", '1e3', '"a#b"', '"say \\"hi\\""'])


def layout(rng):
    """A random valid file: sections in any order, dotted keys, inline tables, comments (no arrays of tables)."""
    while True:
        out = []
        line = lambda ind='': out.append(ind + '.'.join(q(rng.choice(KEYS)) for _ in range(rng.choice([1, 1, 1, 2]))) + rng.choice([' = ', '=']) + rval(rng) + rng.choice(['', ' # c']))
        for _ in range(rng.randrange(4)):
            line()
        for _ in range(rng.randrange(5)):
            out.append('[' + '.'.join(q(rng.choice(KEYS)) for _ in range(rng.randrange(1, 4))) + ']' + rng.choice(['', '  # t']))
            for _ in range(rng.randrange(3)):
                line(rng.choice(['', '  ']))
            if rng.random() < .3:
                out.append(rng.choice(['', '# comment']))
        t = '\n'.join(out) + rng.choice(['', '\n', '\n\n'])
        try:
            tomllib.loads(t)
            return t
        except tomllib.TOMLDecodeError:
            pass


def sections(rng, depth=0):
    """A nested mapping over a fixed schema (no option is a section elsewhere)."""
    d = {}
    for s in ('a', 'b', 'c'):
        if depth < 2 and rng.random() < .5:
            sub = sections(rng, depth + 1)
            if sub or rng.random() < .2:
                d[s] = sub
    if depth:
        for o in ('x', 'y', 'z'):
            if rng.random() < .4:
                d[o] = rng.choice([0, 1, 'text', True, False, 2.5, [1, 2], [], ''])
    return d


def cases(rng, tier):
    S = lambda f, *sets, scope='user': {'kind': 'set', 'file': f, 'sets': [list(s) for s in sets], 'scope': scope}
    for v in VALUES:
        yield S('[a]\nb = 1\n[k]\nz = "keep"\n', ('a.b', v))
        yield S(None, ('n.e.w', v), scope='local')
    for f in LAYOUTS:
        for key in ('a.b', 'a.x', 'a.b.c', 'a.b.c.d', 'server.port', 'new.one', 'a.c.z', 'a.d', 'q.z', 'x.y'):
            yield S(f, (key, 'V'))
            yield S(f, (key, '1'), ('a.z', 'true'), (key, '2'))
    for k in ODD:
        yield S('[a]\nb = 1\n', (f'a.{k}', 'v'), (f'{k}.b', '2'), (f'a.{k}.c', 'w'))
    sec = lambda **k: {'kind': 'merge', 'system': k.get('system', {}), 'user': k.get('user', {}), 'local': k.get('local', {}), 'env': k.get('env', {}), 'none': k.get('none', []), 'reload': k.get('reload', True)}
    names = ('system', 'user', 'local')
    for s in names:
        yield sec(**{s: {'server': {'port': 1}, 'logging': {'level': 'debug'}}})
        yield sec(**{s: {'logging': {'style': 'SYSTEM'}}})
        yield sec(**{s: {'logging': {'style': 'detailed', 'format': 'mine'}}})
        for t in names:
            yield sec(**{s: {'server': {'port': 1, 'bind': 's'}, 'a': {'x': s, 'b': {'x': 1, 'y': 2}}}, t: {'server': {'port': 2}, 'a': {'x': t, 'b': {'y': 3, 'z': 4}}}})
        for r in (True, False):
            for none in ([], ['system'], ['user'], ['local'], ['system', 'user'], ['user', 'local'], ['system', 'user', 'local']):
                yield sec(system={'a': {'x': 's', 'y': 1}}, user={'a': {'x': 'u'}}, local={'a': {'x': 'l', 'z': 2}}, none=none, reload=r)
    for s in names:
        for t in names:
            yield {'kind': 'reload', 'before': {s: {'server': {'port': 1}, 'a': {'x': s}}}, 'after': {t: {'server': {'port': 2}, 'a': {'x': t + '2'}}}}
    for e in ('1', 'text', 'true', 'False', '2.5', 'null', ''):
        yield sec(system={'server': {'port': 7}}, local={'server': {'port': 8, 'bind': 'b'}}, env={'HYPERSHELL_SERVER_PORT': e, 'HYPERSHELL_A_B_X': e})
    P = lambda **k: dict({'kind': 'process', 'user': {}, 'local': {}, 'env': {}, 'file': None, 'sets': []}, **k)
    yield P(user={'a': {'x': 1, 'y': 2}}, local={'a': {'x': 3}}, env={'HYPERSHELL_A_Z': '5'})
    yield P(user={'a': {'x': 1, 'y': 2}}, local={'a': {'x': 3}}, file='other.toml', content={'a': {'z': 'only'}})
    yield P(file='other.toml', sets=[['--local', 'a.b', '1'], ['--local', 'a.c', 'say "hi"']])
    yield P(file='sub/dir/other.toml', sets=[['--local', 'a.b.c', 'x']])
    yield P(user={'a': {'b': 'u', 'x': 1}}, sets=[['--user', 'a.b', '12'], ['--local', 'a.x', 'L'], ['a.q', 'true']], env={'HYPERSHELL_A_B': 'E'})
    for site in (None, 'system', 'user', 'local'):
        for e in ({}, {'EDITOR': 'my-editor'}, {'VISUAL': '/bin/visual'}, {'EDITOR': 'a b', 'VISUAL': 'c'}, {'EDITOR': ''}):
            yield {'kind': 'edit', 'site': site, 'env': e}
    scopes = ['user', 'local']
    while True:
        if rng.random() < .6:
            f = rng.choice(LAYOUTS) if rng.random() < .25 else layout(rng)
            sets = []
            for _ in range(rng.randrange(1, 4)):
                key = '.'.join(rng.choice(KEYS if rng.random() < .85 else ODD) for _ in range(rng.randrange(2, 5)))
                v = rng.choice(VALUES) if rng.random() < .7 else ''.join(chr(rng.choice([rng.randrange(1, 127), rng.randrange(1, 0x300)])) for _ in range(rng.randrange(5)))
                sets.append((key, v))
            yield S(f, *sets, scope=rng.choice(scopes))
        else:
            env = {}
            for _ in range(rng.randrange(3)):
                env['HYPERSHELL_' + '_'.join(rng.choice(['A', 'B', 'C']) for _ in range(rng.randrange(1, 3))) + '_' + rng.choice('XYZ')] = rng.choice(['1', 'text', 'true', '2.5'])
            yield sec(system=sections(rng), user=sections(rng), local=sections(rng), env=env, none=[n for n in names if rng.random() < .1], reload=rng.random() < .7)


def options(d, p=()):
    r = {}
    for k, v in d.items():
        if isinstance(v, dict):
            r.update(options(v, p + (k,)))
        else:
            r[p + (k,)] = v
    return r


def typed(t):
    low = t.lower()
    if low in ('null', 'none'):
        return None
    if low in ('true', 'false'):
        return low == 'true'
    for kind in (int, float):
        try:
            return kind(t)
        except ValueError:
            pass
    return t


def norm(v):
    if isinstance(v, float) and math.isnan(v):
        return ('nan',)
    if isinstance(v, dict):
        return ('map', {k: norm(x) for k, x in v.items()})
    if isinstance(v, list):
        return ('list', [norm(x) for x in v])
    if hasattr(v, 'isoformat'):
        return ('time', v.isoformat())
    return (type(v).__name__, v)


def differ(a, b):
    """First option that differs."""
    for k in sorted(set(a) | set(b), key=repr):
        if k not in a or k not in b or norm(a[k]) != norm(b[k]):
            return f'{".".join(map(str, k))}: {a.get(k, "missing")!r} instead of {b.get(k, "missing")!r}'


def read(f):
    t = open(f, encoding='utf-8', newline='').read().replace('\r\n', '\n')
    try:
        return tomllib.loads(t)
    except tomllib.TOMLDecodeError:
        import tomlkit                   # accepts (and writes) some layouts that are not strictly valid
        return tomlkit.parse(t).unwrap()


def dump(f, d):
    import tomlkit
    os.makedirs(os.path.dirname(f) or '.', exist_ok=True)
    with open(f, 'w', encoding='utf-8') as s:
        s.write(tomlkit.dumps(d))


def clear():
    for f in FILES.values():
        d = os.path.dirname(f)
        if os.path.isdir(d):
            for n in os.listdir(d):
                os.remove(os.path.join(d, n))
    for k in ('load_file', 'load_env'):
        g = getattr(C, k, None)
        if hasattr(g, 'cache_clear'):
            g.cache_clear()


def check_set(case):
    f = FILES[case['scope']]
    if case['file'] is not None:
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, 'w', newline='', encoding='utf-8') as s:
            s.write(case['file'])
    for key, v in case['sets']:
        before = read(f) if os.path.exists(f) else {}
        value = typed(v)
        raised = None
        try:
            with HC.ConfigSetApp.from_cmdline([f'--{case["scope"]}', '--', key, v]) as app:
                app.run()
        except Exception as e:
            raised = e
        try:
            after = read(f) if os.path.exists(f) else {}
        except Exception as e:
            return f'file: not a valid configuration file after {key}={v!r}: {e}'
        k = tuple(key.split('.'))
        unwritable = value is None or isinstance(value, str) and any(0xd800 <= ord(ch) < 0xe000 for ch in value)
        if unwritable or raised is not None:
            if not unwritable:
                return f'set: {key}={v!r} failed: {type(raised).__name__}: {raised}'
            if raised is None:
                return f'set: {key}={v!r} cannot be stored but was accepted'
            e = differ(options(after), options(before))
            if e:
                return f'rejected: the file was changed: {e}'
            continue
        want = {o: w for o, w in options(before).items() if o[:len(k)] != k and o != k[:len(o)]}
        want[k] = value
        e = differ(options(after), want)
        if e:
            return f'set: after {key}={v!r}: {e}'
        try:
            loaded = C.reload_file(f)
        except Exception as e:
            return f'read: the file cannot be read after {key}={v!r}: {e}'
        e = differ(options(loaded), want)
        if e:
            return f'read: after {key}={v!r}: {e}'


def effective(layers):
    out = {}
    for l in layers:
        out.update(options(l))
    return out


def expand(env):
    out = {}
    for k, v in env.items():
        d = out
        *s, last = k[len('HYPERSHELL_'):].lower().split('_')
        for x in s:
            d = d.setdefault(x, {})
        d[last] = None if v in ('', 'null') else typed(v)
    return out


def builtin(style):
    d = {k: (dict(v) if isinstance(v, dict) else v) for k, v in DEFAULT.items()}
    d['logging'] = {**d['logging'], **C.LOGGING_STYLES[style.lower()]}
    return d


DEFAULT = json.loads(json.dumps(C.default))


def check_merge(case):
    files = {}
    for s in FILES:
        if s in case['none']:
            files[s] = None
            continue
        if case[s]:
            dump(FILES[s], case[s])
        files[s] = FILES[s]
    old = {k: v for k, v in os.environ.items() if k.startswith('HYPERSHELL')}
    for k in old:
        del os.environ[k]
    os.environ.update(case['env'])
    try:
        loader = C.partial_reload if case['reload'] else C.partial_load
        got = C.build_configuration(functools.partial(loader, **files))
        src = [case[s] if s not in case['none'] else {} for s in ('system', 'user', 'local')] + [expand(case['env'])]
        style = effective([DEFAULT, *src])[('logging', 'style')]
        want = effective([builtin(style), *src])
        e = differ(options(got), want)
        if e:
            return f'merge: {e}'
        e = differ(options(C.default), options(DEFAULT))
        if e:
            return f'merge: the built-in defaults were changed: {e}'
        first = [s for s in ('system', 'user', 'local') if s not in case['none']]
        for s in first:
            e = differ(options(C.reload_file(FILES[s])), options(case[s]))
            if e:
                return f'merge: {s} is not as written: {e}'
    finally:
        for k in case['env']:
            os.environ.pop(k, None)
        os.environ.update(old)


def check_reload(case):
    """Once loaded, the configuration follows a change of a file when it is reloaded."""
    old = {k: v for k, v in os.environ.items() if k.startswith('HYPERSHELL')}
    for k in old:
        del os.environ[k]
    paths = {s: FILES[s] for s in FILES}
    real = {n: getattr(C, n) for n in ('partial_load', 'partial_reload')}
    try:
        for n, f in real.items():
            setattr(C, n, functools.partial(f, **paths))
        for s in FILES:
            if case['before'].get(s):
                dump(FILES[s], case['before'][s])
        C.load()
        for k in range(2):
            for s in FILES:
                if case['after'].get(s):
                    dump(FILES[s], case['after'][s] if k == 0 else case['before'].get(s) or {})
            src = [(case['after'].get(s) or case['before'].get(s) or {}) if k == 0 else case['before'].get(s) or {} for s in ('system', 'user', 'local')]
            got = C.reload()
            style = effective([DEFAULT, *src])[('logging', 'style')]
            e = differ(options(got), effective([builtin(style), *src]))
            if e:
                return f'reload: {e}'
    finally:
        for n, f in real.items():
            setattr(C, n, f)
        os.environ.update(old)


def check_process(case):
    home, site, cwd = (os.path.join(lib.scratch(), 'p', x) for x in ('home', 'site', 'cwd'))
    import shutil
    shutil.rmtree(os.path.join(lib.scratch(), 'p'), ignore_errors=True)
    for d in (home, site, cwd):
        os.makedirs(d)
    env = {k: v for k, v in os.environ.items() if not k.startswith('HYPERSHELL')}
    env.update(HOME=home, HYPERSHELL_SITE=site, PYTHONPATH=os.path.join(lib.REPO, 'src'), PYTHONDONTWRITEBYTECODE='1', **case['env'])
    user, local = os.path.join(home, '.hypershell', 'config.toml'), os.path.join(site, 'config.toml')
    layers = {'user': case['user'], 'local': case['local']}
    if case['user']:
        dump(user, case['user'])
    if case['local']:
        dump(local, case['local'])
    if case['file']:
        env['HYPERSHELL_CONFIG_FILE'] = case['file']
        local = os.path.join(cwd, case['file'])
        layers = {'local': case.get('content', {})}
        if case.get('content'):
            dump(local, case['content'])
    run = lambda *a: subprocess.run([sys.executable, *a], cwd=cwd, env=env, capture_output=True, text=True, stdin=subprocess.DEVNULL)
    for *opt, key, v in case['sets']:
        r = run('-c', 'from hypershell import main; import sys; sys.exit(main())', 'config', 'set', *opt, key, v)
        if r.returncode:
            return f'process: config set {opt} {key} {v!r} failed: {r.stderr[-300:]}'
        d = layers['local' if '--local' in opt else 'user']
        *s, last = key.split('.')
        for x in s:
            d = d.setdefault(x, {})
        d[last] = typed(v)
    r = run('-c', 'import json; from hypershell.core.config import config; print(json.dumps(config))')
    if r.returncode:
        return f'process: configuration cannot be loaded: {r.stderr[-300:]}'
    got = options(json.loads(r.stdout))
    want = effective([DEFAULT, layers.get('user', {}), layers['local'], expand(case['env'])])
    want[('task', 'cwd')], want[('ssh', 'config')] = got.get(('task', 'cwd')), got.get(('ssh', 'config'))
    got = {k: v for k, v in got.items() if k not in (('site',), ('config', 'file'))}
    e = differ(got, want)
    return f'process: {e}' if e else None


def mute():
    import contextlib, io
    st = contextlib.ExitStack()
    st.enter_context(contextlib.redirect_stdout(io.StringIO()))
    st.enter_context(contextlib.redirect_stderr(io.StringIO()))
    return st


def check_edit(case):
    ran = []
    env = {k: v for k, v in os.environ.items() if k not in ('EDITOR', 'VISUAL')}
    env.update(case['env'])
    class Sub:
        def __getattr__(self, n): return getattr(subprocess, n)
        def run(self, argv, **k): ran.append(argv)
    saved, real, HC.subprocess = dict(os.environ), HC.subprocess, Sub()
    os.environ.clear()
    os.environ.update(env)
    try:
        with mute():
            status = HC.ConfigApp.main(['edit'] + (['--' + case['site']] if case['site'] else []))
        refused = status != 0
    finally:
        HC.subprocess = real
        os.environ.clear()
        os.environ.update(saved)
    e = case['env'].get('EDITOR', case['env'].get('VISUAL'))
    if refused != (not e):
        return f'edit: {case["env"]} {"is refused" if refused else "is accepted"}'
    want = [] if refused else [[e, FILES[case['site'] or 'user']]]
    if ran != want:
        return f'edit: runs {ran} instead of {want}'


def check(case):
    clear()
    if case['kind'] == 'edit':
        return check_edit(case)
    if case['kind'] == 'set':
        return check_set(case)
    if case['kind'] == 'merge':
        return check_merge(case)
    if case['kind'] == 'reload':
        return check_reload(case)
    return check_process(json.loads(json.dumps(case)))
