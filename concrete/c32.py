"""C32 on the real code: generated settings in the files of the sites and in the environment; `hs config get` and
`hs config which` are run in a fresh process (forked before the program is imported) and what they print is compared with
the settings themselves."""
import json
import os
import random
import shutil
import subprocess
import sys
import tomllib
from concrete import lib
import importlib
for _m in ('toml', 'tomlkit', 'tomlkit.items', 'pygments', 'pygments.styles', 'rich.console', 'rich.syntax', 'rich.table', 'rich.progress', 'cmdkit.app', 'cmdkit.cli', 'cmdkit.config', 'cmdkit.logging', 'logging.handlers', 'sqlalchemy', 'sqlalchemy.orm',
           'sqlalchemy.dialects.postgresql', 'sqlalchemy.dialects.sqlite', 'paramiko', 'yaml', 'parsl', 'requests', 'multiprocessing.managers', 'multiprocessing.queues', 'uuid', 'secrets', 'csv', 'json', 'tempfile', 'ipaddress'):
    try:
        importlib.import_module(_m)          # other people's modules, before the fork
    except Exception:
        pass
import tomlkit
if lib.REPO + '/src' not in sys.path:
    sys.path.insert(0, os.path.join(lib.REPO, 'src'))
sys.dont_write_bytecode = True

ROOT = os.path.join(lib.scratch(), 'c32')
HOME, SITE, CWD = (os.path.join(ROOT, x) for x in ('home', 'site', 'cwd'))
USER, LOCAL, OTHER = os.path.join(HOME, '.hypershell', 'config.toml'), os.path.join(SITE, 'config.toml'), os.path.join(CWD, 'other.toml')
NAMES = ['a', 'b', 'c', 'x', 'my-var', 'v2']
ODD = ['two words', 'é', 'q"t', 'x.y', '#h', "it's", '1.5']
TEXTS = ['', 'text', 'with "q"', '"quoted"', "it's", 'node[01-10]', '[x]', 'line\nbreak', ' pad ', '1', 'true', 'null', 'é', '# no', 'a = 1', 'back\\slash', '{x}', '%d', '"', '""', '😀']
SCALARS = [0, 1, -5, 2.5, 0.0, True, False, 10 ** 12]
LISTS = [[], [1, 2], ['x', 'y'], ['a "b"'], [[1], [2]], [True], ['']]


def value(rng):
    r = rng.random()
    return rng.choice(TEXTS) if r < .5 else rng.choice(SCALARS) if r < .8 else rng.choice(LISTS)


def tree(rng, depth=0):
    d = {}
    for _ in range(rng.randrange(0 if depth else 1, 4)):
        k = rng.choice(NAMES) if rng.random() < .8 else rng.choice(ODD)
        d[k] = tree(rng, depth + 1) if depth < 3 and rng.random() < .55 - .1 * depth else value(rng)
    return d


def known(rng):
    """Settings of the program itself."""
    d = {}
    for s, v in [('submit', {'bundlesize': rng.randrange(1, 9)}), ('client', {'timeout': rng.randrange(5), 'heartrate': 3}), ('server', {'auth': rng.choice(TEXTS)}), ('autoscale', {'size': {'max': 5}, 'launcher': rng.choice(TEXTS)}),
                 ('logging', {'style': rng.choice(['default', 'detailed', 'system', 'DETAILED'])}), ('ssh', {'nodelist': rng.choice([['a', 'b'], {'g': ['a'], 'h': {'i': 1}}])}), ('logging', {'format': '%(message)s'}), ('console', {'theme': 'vim'}), ('export', {'PATH': '/x'})]:
        if rng.random() < .25:
            d.setdefault(s, {}).update(v)
    return d


def merge(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = merge(out[k], v) if isinstance(v, dict) and isinstance(out.get(k), dict) else (merge({}, v) if isinstance(v, dict) else v)
    return out


def paths(d, p=()):
    for k, v in d.items():
        if isinstance(k, str) and k and '.' not in k:
            yield p + (k,)
            if isinstance(v, dict):
                yield from paths(v, p + (k,))


BASIC = ['submit.bundlesize', 'client.timeout', 'task.timeout', 'autoscale', 'autoscale.size', 'autoscale.size.max', 'ssh.nodelist', 'export', 'logging.format', 'logging.style', 'logging.level', 'server.auth', 'server.eager', 'database', 'nope', 'nope.x', 'submit.nope', '.submit',
         'autoscale.nope.max', 'submit.bundlesize.x', 'submit.bundlesize.x.y', 'autoscale.size.max.z', 'x..y', 'console.theme', 'logging.color', 'autoscale.launcher']


def case(user=None, local=None, env=None, other=None, queries=()):
    return {'kind': 'config', 'user': user or {}, 'local': local or {}, 'env': env or {}, 'other': other, 'queries': [list(q) for q in queries]}


def cases(rng, tier):
    both = [[c, p] for p in BASIC for c in ('get', 'which')]
    yield case(queries=both + [['get', '.'], ['get', '.', '--default'], ['get', '.', '--user'], ['get', 'submit.bundlesize', '--user'], ['get', 'submit.bundlesize', '--default'], ['get', 'task.timeout', '-x'], ['get', 'server.port', '-x', '--default']])
    yield case(user={'submit': {'bundlesize': 7}, 'client': {'timeout': 0}, 'a': {'b': {'c': 1, 'd': {'e': 'x'}}}, 'top': 'bar', 'num': 3}, local={'submit': {'bundlesize': 8}, 'a': {'b': {'c': 2}}, 'ssh': {'nodelist': ['n[1-2]']}}, env={'HYPERSHELL_A_Z': '5', 'HYPERSHELL_SERVER_PORT': '99'},
               queries=both + [['get', '.'], ['get', 'a'], ['get', 'a.b'], ['get', 'a.b.c'], ['get', 'a.b.c', '--user'], ['get', 'a.b.c', '--local'], ['get', 'a.b.d.e', '--local'], ['get', 'a.z', '--local'], ['get', 'a', '--user'], ['get', '.', '--user'], ['get', '.', '--local'], ['get', 'top.bar'], ['get', 'num.x'], ['get', 'top'], ['get', 'num.x.y'],
                               ['which', 'a.b.c'], ['which', 'a.b.d.e'], ['which', 'a.z'], ['which', 'a'], ['which', 'top'], ['which', 'num.x'], ['which', 'top.bar'], ['which', 'server.port'], ['which', 'a.b.c', '--site'], ['which', 'a.z', '--site'], ['which', 'logging.format', '--site'], ['which', 'submit.bundlewait', '--site'], ['which', 'nope.x', '--site']])
    yield case(user={'s': {'password_env': 'VERIF_SECRET', 'word_eval': 'echo "hi there"', 'both': 1, 'both_env': 'HOME', 'gone_env': 'VERIF_UNSET', 'plain': 'v', 'n': 3, 'empty_eval': 'true', 't': {'k_eval': 'printf "a  b"'}}}, env={'VERIF_SECRET': 'se"cret [1]'},
               queries=[['get', f's.{k}', *x] for k in ('password', 'word', 'both', 'gone', 'plain', 'n', 'password_env', 'word_eval', 'nope', 'empty', 't.k', 't') for x in (['-x'], [], ['-x', '--user'], ['-x', '--local'], ['-x', '-r'])])
    yield case(user={'a': {'x.y': {'k': 'v', 'two words': {'z': 1}}, 'é': 1, 'b c': {'d': [1]}}, 'q"t': {'x': 1}, 'b': {'c': {'d': {'e': {'f': 1}}}}}, queries=[['get', 'a'], ['get', '.', '--user'], ['get', '.'], ['get', 'b'], ['get', 'b.c'], ['get', 'b.c.d.e'], ['get', 'b.c.d.e.f'], ['get', 'b.c.d.e.f.g'], ['get', 'b.c.d.x.f']])
    yield case(user={'a': {'x': 1, 'b': {}, 'e': {'b': {}, 'x': 2}}, 'e': {}, 'b': {'x': 5}}, local={'e': {'a': {}}}, queries=[[c, p, *x] for c in ('get', 'which') for p in ('a.b.x', 'a.x', 'a.b', 'a.e.b.x', 'a.e.b', 'e', 'e.x', 'e.a.x', 'e.a', 'b.b.x', 'a.a.x') for x in ([['--user'], ['--local'], []] if c == 'get' else [[]])])
    yield case(other={'a': {'b': 1}, 'submit': {'bundlesize': 4}}, user={'a': {'b': 2, 'c': 3}}, local={'a': {'d': 4}}, queries=[['get', 'a.b'], ['get', 'a.c'], ['get', 'a.c', '--user'], ['get', 'a', '--local'], ['which', 'a.b'], ['which', 'a.c'], ['which', 'submit.bundlesize'], ['get', 'submit.bundlesize', '--local']])
    for style in ('default', 'detailed', 'detailed-compact', 'system', 'nonesuch'):
        if style != 'nonesuch':
            yield case(local={'logging': {'style': style}}, queries=[['get', 'logging'], ['which', 'logging.format'], ['get', 'logging.format'], ['which', 'logging.style'], ['get', 'logging.format', '--local']])
    while True:
        user, local = (merge(tree(rng), known(rng)) if rng.random() < .8 else {} for _ in range(2))
        env = {}
        for _ in range(rng.randrange(4)):
            env['HYPERSHELL_' + rng.choice(['A', 'B', 'C', 'SUBMIT', 'CLIENT', 'SERVER', 'X']) + '_' + rng.choice(['A', 'B', 'C', 'BUNDLESIZE', 'PORT', 'X_Y'])] = rng.choice(['1', 'text', '2.5', 'true', 'a b', '[z]', 'with "q"'])
        every = list(paths(merge(user, local))) + [tuple(n[11:].lower().split('_')) for n in env]
        qs = []
        for _ in range(16):
            r = rng.random()
            p = '.'.join(rng.choice(every)) if every and r < .6 else rng.choice(BASIC) if r < .8 else '.'.join(rng.choice(NAMES) for _ in range(rng.randrange(1, 4)))
            if r < .4 and rng.random() < .2:
                p += '.' + rng.choice(NAMES)
            elif '.' in p and rng.random() < .1:
                a, b = p.rsplit('.', 1)
                p = f'{a}.{rng.choice(NAMES)}.{b}'
            if p.startswith('-'):
                continue
            if rng.random() < .6:
                qs.append(['get', p] + (rng.choice([[], [], ['--user'], ['--local'], ['--default']])) + (['-r'] if rng.random() < .2 else []) + (['-x'] if rng.random() < .1 and '.' in p else []))
            else:
                qs.append(['which', p] + (['--site'] if rng.random() < .25 else []))
        qs += [['get', '.'], ['get', '.', '--user']] if rng.random() < .3 else []
        if len(env) != len({tuple(sorted(env))}) and any(a != b and b.startswith(a + '_') for a in env for b in env):
            continue
        yield case(user, local, env, queries=qs)


def typed(t):
    low = t.lower()
    if low in ('true', 'false'):
        return low == 'true'
    for kind in (int, float):
        try:
            return kind(t)
        except ValueError:
            pass
    return t


def child(c, w):
    """In the forked process: everything the commands print."""
    import io
    keep = {k: v for k, v in os.environ.items() if not k.startswith(('HYPERSHELL', 'VERIF_'))}
    os.environ.clear()
    os.environ.update(keep)
    os.environ.update(HOME=HOME, HYPERSHELL_SITE=SITE, **c['env'])
    if c['other'] is not None:
        os.environ['HYPERSHELL_CONFIG_FILE'] = OTHER
    os.chdir(CWD)
    import hypershell.config as H
    import hypershell.core.config as K
    out = []
    for cmd, *argv in c['queries']:
        App = {'get': H.ConfigGetApp, 'which': H.ConfigWhichApp}[cmd]
        so, se = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        try:
            status = App.main(argv)
        except SystemExit as e:
            status = e.code
        except BaseException as e:
            status = f'{type(e).__name__}: {e}'
        finally:
            text = sys.stdout.getvalue()
            sys.stdout, sys.stderr = so, se
        out.append([status, text])
    os.write(w, json.dumps({'out': out, 'default': K.default, 'styles': K.LOGGING_STYLES}).encode())


def ask(c):
    shutil.rmtree(ROOT, ignore_errors=True)
    for f, d in ((USER, c['user']), (LOCAL, c['local']), (OTHER, c['other'])):
        os.makedirs(os.path.dirname(f), exist_ok=True)
        if d or f == OTHER and d is not None:
            with open(f, 'w', encoding='utf-8') as s:
                s.write(tomlkit.dumps(d))
            assert tomllib.load(open(f, 'rb')) == d, 'harness: file'
    rd, w = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            os.close(rd)
            child(c, w)
            code = 0
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    data = b''
    while True:
        b = os.read(rd, 65536)
        if not b:
            break
        data += b
    os.close(rd)
    os.waitpid(pid, 0)
    return json.loads(data) if data else None


NONE = object()


def look(d, p):
    for k in p:
        if not isinstance(d, dict) or k not in d:
            return NONE
        d = d[k]
    return d


def strip(v):
    """A section as TOML can hold it: without the settings that have no value."""
    return {k: strip(x) for k, x in v.items() if x is not None} if isinstance(v, dict) else v


def expand(section, k, env):
    """The value of a setting that may be given as a variable or a command."""
    have = [n for n in (k, f'{k}_env', f'{k}_eval') if isinstance(section, dict) and n in section]
    if len(have) != 1:
        return NONE
    v = section[have[0]]
    if have[0].endswith('_env') and have[0] != k:
        v = env.get(str(v))
    elif have[0] != k:
        v = subprocess.check_output(str(v), shell=True).decode().strip()
    return NONE if v is None else v


def same(a, b):
    return type(a) is type(b) and (a == b if not isinstance(a, (dict, list)) else (a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)) if isinstance(a, dict) else len(a) == len(b) and all(same(x, y) for x, y in zip(a, b)))


def check(c):
    r = ask(c)
    if r is None:
        return 'load: the commands cannot be started with these settings'
    env = {}
    for n, v in c['env'].items():
        if n.startswith('HYPERSHELL_'):
            d = env
            *s, last = n[11:].lower().split('_')
            for x in s:
                if not isinstance(d.get(x, {}), dict):
                    return None
                d = d.setdefault(x, {})
            if isinstance(d.get(last), dict):
                return None
            d[last] = typed(v)
    files = {'user': c['user'] if c['other'] is None else {}, 'local': c['local'] if c['other'] is None else c['other']}
    default = r['default']
    before = merge(merge(merge(default, files['user']), files['local']), env)
    style = look(before, ('logging', 'style'))
    preload = {'logging': r['styles'][style.lower()]}
    layers = [('default', default), ('preload', preload), ('user', files['user']), ('local', files['local']), ('env', env)]
    full = {}
    for _, l in layers:
        full = merge(full, l)
    where = {'user': USER, 'local': LOCAL if c['other'] is None else OTHER}
    own = {'user': c['user'], 'local': files['local']}
    for q, (status, out) in zip(c['queries'], r['out']):
        cmd, p, opt = q[0], (q[1] if len(q) > 1 and not q[1].startswith('-') else '.'), q[1:]
        name = ' '.join(q)
        if cmd == 'get':
            site = next((o[2:] for o in opt if o in ('--user', '--local', '--default')), None)
            if site in where and not os.path.exists(where[site]):
                want = NONE
            else:
                conf = full if site is None else default if site == 'default' else own[site]
                ks = p.split('.')
                want = conf if p == '.' else expand(look(conf, ks[:-1]), ks[-1], {**c['env'], 'HOME': HOME}) if '-x' in opt and len(ks) > 1 else look(conf, ks)
            if want is NONE:
                if status in (0, None) or out:
                    return f'missing: `{name}` gives {status} {out[:200]!r} but there is no such setting'
                continue
            if status != 0:
                return f'get: `{name}` fails with {status} but the setting is {want!r}'
            if isinstance(want, dict):
                if p != '.' and any(not all(ch.isascii() and (ch.isalnum() or ch in '-_') for ch in k) for k in ks):
                    continue                  # the name itself would need quotes
                try:
                    got = tomllib.loads(out)
                except tomllib.TOMLDecodeError as e:
                    return f'section: `{name}` prints no valid TOML ({e}): {out[:300]!r}'
                if p != '.':
                    if [*got] != [ks[0]]:
                        return f'section: `{name}` prints {out[:300]!r}'
                    got = look(got, ks)
                elif site is None:
                    got = {k: v for k, v in got.items() if k not in ('site', 'config')}
                want = strip(want)
                if not same(got, want):
                    return f'section: `{name}` reads back as {got!r} instead of {want!r}'
            elif isinstance(want, str):
                if out != want + '\n':
                    return f'text: `{name}` prints {out!r} for {want!r}'
            else:
                try:
                    ok = same(json.loads(out), want) and out.endswith('\n')
                except ValueError:
                    ok = False
                if not ok:
                    return f'value: `{name}` prints {out!r} for {want!r}'
        else:
            ks = p.split('.')
            value = look(full, ks)
            if value is NONE:
                if out:
                    return f'which missing: `{name}` prints {out!r}'
                continue
            site = next((n for n, l in reversed(layers) if look(l, ks) is not NONE), None)
            if status != 0:
                return f'which: `{name}` fails with {status}'
            if '--site' in opt:
                if out != site + '\n':
                    return f'which site: `{name}` prints {out!r} but the setting comes from {site}'
                continue
            def forms(v):
                if v is NONE:
                    return ['null']
                if isinstance(v, dict):
                    return ['[...]']
                t = (v if isinstance(v, str) else json.dumps(v)).strip()
                return [t, '[...]'] if '[' in t else [t]
            tails = [''] if site in ('default', 'preload') else [f' | default: {d}' for d in forms(look(default, ks))]
            sources = [site] if site in ('default', 'preload') else [f'{site}: {where[site]}'] if site in where else [f'env: {n}' for n in c['env'] if n == 'HYPERSHELL_' + p.upper().replace('.', '_') or isinstance(value, (dict, list)) and n.startswith('HYPERSHELL_' + p.upper().replace('.', '_'))]
            sources += ['env: HYPERSHELL_' + p.upper().replace('.', '_')] if site == 'env' and isinstance(value, (dict, str)) else []
            if out not in [f'{v} ({s}{t})\n' for v in forms(value) for s in sources for t in tails]:
                return f'which: `{name}` prints {out!r} for {value!r} from {site} (default {look(default, ks) if look(default, ks) is not NONE else None!r})'
