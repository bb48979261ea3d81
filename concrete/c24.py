"""C24 on the real code: the environment a task process is started with, for generated tasks, tags, inherited environments and
configured exports; two tasks one after the other through the executor; a few real processes."""
import json
import os
import subprocess
import sys
from concrete import lib
from concrete.lib import InQ, OutQ, Obj, run_machine, rand_text
os.environ['HOME'] = os.path.join(lib.scratch(), 'home')
os.makedirs(os.environ['HOME'], exist_ok=True)
lib.setup(fake_clock=False)
import tomlkit
import hypershell.core.config as HC
import hypershell.client as C
from hypershell.data.model import Task
from hypershell.core.platform import default_path
from datetime import datetime, timezone, timedelta

REAL_POPEN, REAL_CONFIG = C.Popen, C.config
BASE = dict(os.environ)
FIELDS = list(Task.columns)
TAGS = ['a', 'b', 'x-y', 'A.b', 'long_name', 'id', 'cwd', '_prefix', 'local', 'update', 'items', 'keys', 'two words', 'é', '1', 'class', 'outpath', 'tag', '_', '__class__', 'copy', '']
VALS = [None, True, False, 0, 1, -3, 2.5, 1e16, 'text', '', 'null', 'true', '007', 'a b', 'é', '2024-01-01', '{}', '%s', '$HOME', 'line\nbreak', '=', ':', '[1]']
NAMES = ['PATH2', 'A', 'MY_VAR', 'X1', 'LD_LIBRARY_PATH', 'TASK_ID', 'TASK_TAG_A', 'TASK_X', 'TASK_CWD', 'TASK_OUTPATH', 'HOME2', 'a_b', 'HYPERSHELL_FOO', 'TASK_EXIT_STATUS', 'TASK_ARGS', 'TASK_TAG_B']
ENVV = ['1', '', 'text', 'a:b', '007', 'true', 'null', 'None', '1e3', 'é', 'x=y', '  sp ', '"q"', '{"a": 1}', '\udcff', '1_000', '-0', '0x1']
EXPV = [1, 0, -2, 2.5, True, False, 'text', '', ['a', 'b'], ['x'], [], [1, 2], 'a:b', '007', ['a b', 'c:d'], '$HOME']


def cases(rng, tier):
    E = lambda tasks, **k: dict({'kind': 'env', 'tasks': tasks, 'inherit': {}, 'export': {}, 'env': {}, 'capture': False, 'cwd': None}, **k)
    T = lambda args='true', tag=None, **k: dict({'args': args, 'tag': tag or {}}, **k)
    for t in TAGS:
        yield E([T(tag={t: 'v'}), T(tag={'other': 1})])
        yield E([T(tag={'q': 'first'}), T(tag={t: None}), T()])
    for v in VALS:
        yield E([T(tag={'a': v, 'b': 'x'}), T(tag={'a': 'y'})], inherit={'TASK_TAG_A': 'outer', 'TASK_TAG_Z': 'outer', 'INH': 'i'})
    for n in NAMES:
        for v in ('1', 'text'):
            yield E([T(tag={'a': 'v'}), T()], inherit={n: v})
            yield E([T(tag={'a': 'v'}), T()], inherit={n: 'inherited'}, env={n: v})
            yield E([T(tag={'a': 'v'}), T()], inherit={n: 'inherited'}, export={n.lower(): v})
    for v in ENVV:
        yield E([T()], env={'FOO': v, 'foo_bar': v})
        yield E([T()], inherit={'FOO': v}, export={'foo': 'file'}, env={'OTHER': v})
        yield E([T()], export={'foo': 'file', 'bar': 'kept'}, env={'FOO': v})
    for v in EXPV:
        yield E([T()], export={'foo': v, 'sub': {'one': v, 'two': {'x': v}}}, inherit={'FOO': 'inherited'})
        yield E([T(), T()], export={'path': v, 'UP': v})
    for cap in (True, False):
        yield E([T('a', {'a': 1}), T('b', {'b': 2}), T('a', {'a': 1})], capture=cap)
        yield E([T(), T()], capture=cap, cwd=True)
    ident = 'abcdef01-2345-6789-abcd-ef0123456789'
    for k in range(len(ident)):         # identifiers that differ in a single place
        if ident[k] != '-':
            near = ident[:k] + ('0' if ident[k] != '0' else '1') + ident[k + 1:]
            yield E([T(fields={'id': ident}), T(fields={'id': near})], capture=bool(k % 2))
    yield {'kind': 'real', 'tags': [{'a': 'one-two', 'B_1': True}, {'c': ''}], 'env': {'VAR': 'say "hi"'}, 'inherit': {'TASK_ID': 'outer', 'INH': 'x y'}}
    for e in ({}, {'FOO': '007', 'BAR': 'true'}):
        yield {'kind': 'fresh', 'env': e, 'export': {'foo': 'file', 'lst': ['a', 'b']}}
    word = lambda: ''.join(rng.choice('abcxyz_.-+0') for _ in range(rng.randint(1, 4)))
    while True:
        tasks = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            tag, seen = {}, set()
            for _ in range(rng.randrange(4)):
                n = rng.choice(TAGS) if rng.random() < .6 else word()
                if n.upper() not in seen:
                    seen.add(n.upper())
                    tag[n] = rng.choice(VALS)
            t = {'args': rand_text(rng).replace('\x00', ''), 'tag': tag, 'fields': {}}
            for f, k in Task.columns.items():
                if f in ('id', 'args', 'tag', 'submit_time', 'start_time', 'waited') or rng.random() < .6:
                    continue
                t['fields'][f] = ['time', rng.randrange(10**6), rng.choice([0, 1, 500000]), rng.choice([None, 0, 5])] if k is datetime else rng.randrange(-5, 99) if k is int else rng.choice([True, False]) if k is bool else rng.choice([v for v in VALS if isinstance(v, str)])
            tasks.append(t)
        pick = lambda names, vals: {rng.choice(names): rng.choice(vals) for _ in range(rng.randrange(3))}
        exp = {n.lower(): v for n, v in pick(NAMES, EXPV).items()}
        if rng.random() < .3:
            exp[rng.choice(['sub', 'deep'])] = {word(): rng.choice(EXPV) for _ in range(rng.randint(1, 2))}
        yield E(tasks, inherit=pick(NAMES + ['INH', 'inh_2'], ENVV), export=exp, env=pick([n for n in NAMES if n.upper() == n], ENVV), capture=rng.random() < .4, cwd=True if rng.random() < .3 else None)


def text(v):
    return 'null' if v is None else 'true' if v is True else 'false' if v is False else v.isoformat(' ') if isinstance(v, datetime) else str(v)


def flat(d, pre=''):
    r = {}
    for k, v in d.items():
        if isinstance(v, dict):
            r.update(flat(v, pre + k.upper() + '_'))
        else:
            r[pre + k.upper()] = ':'.join(str(x) for x in v) if isinstance(v, list) else text(v)
    return r


def setup(case, cwd):
    """Environment and configuration as the program starts with them."""
    os.environ.clear()
    os.environ.update({k: v for k, v in BASE.items() if k.startswith(('HYPERSHELL_', 'VERIF_SCRATCH', 'PATH', 'HOME', 'LANG'))})
    os.environ.update(case.get('inherit', {}))
    os.environ.update({f'HYPERSHELL_EXPORT_{k}': v for k, v in case.get('env', {}).items()})
    f = os.path.join(lib.scratch(), f'env{os.getpid()}.toml')
    d = {'export': case.get('export', {})}
    if cwd:
        d['task'] = {'cwd': cwd}
    with open(f, 'w') as s:
        s.write(tomlkit.dumps(d))
    HC.config = C.config = HC.reload_local(f)
    for name in ('load_task_env', 'load_env', 'load_file'):
        fn = getattr(HC, name, None)
        if hasattr(fn, 'cache_clear'):
            fn.cache_clear()
    return dict(os.environ)


def restore():
    os.environ.clear()
    os.environ.update(BASE)
    HC.config = C.config = REAL_CONFIG
    C.Popen = REAL_POPEN
    for name in ('load_task_env', 'load_env', 'load_file'):
        fn = getattr(HC, name, None)
        if hasattr(fn, 'cache_clear'):
            fn.cache_clear()


def value(v):
    if isinstance(v, list):
        return datetime(2024, 1, 1, tzinfo=None if v[3] is None else timezone(timedelta(hours=v[3]))) + timedelta(seconds=v[1], microseconds=v[2])
    return v


def wanted(case, inherited, rec, cwd):
    env = dict(inherited)
    env.update(flat(case.get('export', {})))
    env.update({k.upper(): v for k, v in case.get('env', {}).items()})
    own = {'TASK_' + f.upper(): text(v) for f, v in rec.items() if f not in ('tag', 'outpath', 'errpath')}
    own.update({'TASK_TAG_' + n.upper(): text(v) for n, v in (rec['tag'] or {}).items()})
    own['TASK_CWD'] = cwd
    env.update(own)
    return env, own


def check_env(case):
    cwd = lib.scratch() if case['cwd'] else None
    try:
        inherited = setup(case, cwd)
        cwd = C.config.task.cwd
        tasks, recs = [], []
        for t in case['tasks']:
            x = Task.new(args=t['args'])
            x.tag = dict(t['tag'])
            for f, v in t.get('fields', {}).items():
                setattr(x, f, value(v))
            tasks.append(x)
        started = []
        class P:
            pid = 1
            def wait(self, timeout=None): return 0
            def poll(self): return 0
        def popen(cmd, *a, **kw):
            x = [t for t in tasks if t.id == current[0]][0]
            recs.append(({f: getattr(x, f) for f in FIELDS}))
            started.append((x, kw))
            return P()
        current = [None]
        C.Popen = popen
        inq, outq = InQ([('item', t, 0) for t in tasks] + [('end',)]), OutQ([])
        real = inq.get
        def get(*a, **k):
            t = real(*a, **k)
            current[0] = getattr(t, 'id', None)
            return t
        inq.get = get
        os.makedirs(os.path.join(default_path.lib, 'task'), exist_ok=True)
        with open(os.devnull, 'w') as null:
            run_machine(C.TaskExecutor(id=1, inbound=inq, outbound=outq, template='{}', capture=case['capture'], redirect_output=null, redirect_errors=null))
        if [x.id for x, _ in started] != [t.id for t in tasks]:
            return f'start: {len(started)} of {len(tasks)} tasks were started'
        paths = {}
        for (x, kw), rec in zip(started, recs):
            env = kw.get('env')
            if env is None:
                return 'start: no environment given to the process'
            want, own = wanted(case, inherited, rec, cwd)
            for k, v in want.items():
                if k in ('TASK_OUTPATH', 'TASK_ERRPATH'):
                    continue
                if k not in env:
                    return f'missing: {k} (should be {v!r})'
                if env[k] != v or not isinstance(env[k], str):
                    what = 'task' if k in own else 'environment'
                    return f'{what}: {k} is {env[k]!r} and not {v!r}'
            known = set(want) | {'TASK_OUTPATH', 'TASK_ERRPATH'}
            extra = [k for k in env if k not in known and k.startswith('TASK_')]
            if extra:
                return f'foreign: {extra} belongs to no field and no tag of the task'
            for k in ('TASK_OUTPATH', 'TASK_ERRPATH'):
                p = env.get(k)
                if not isinstance(p, str) or not p:
                    return f'paths: {k} is {p!r}'
                if paths.get(p, (x.id, k)) != (x.id, k):
                    return f'paths: {p} is used twice'
                paths[p] = (x.id, k)
            if case['capture'] and (x.outpath, x.errpath) != (env['TASK_OUTPATH'], env['TASK_ERRPATH']):
                return 'paths: captured elsewhere'
            if kw.get('cwd') != cwd:
                return f'directory: {kw.get("cwd")!r}'
            if x.tag != case['tasks'][tasks.index(x)]['tag']:
                return 'record: tags of the task changed'
        if dict(os.environ) != inherited:
            return 'own environment changed'
    finally:
        restore()


def check_real(case):
    try:
        inherited = setup(case, lib.scratch())
        tasks = [Task.new(args=f'env -0 > {lib.scratch()}/real{os.getpid()}.{i}; pwd > {lib.scratch()}/pwd{os.getpid()}', tag=t) for i, t in enumerate(case['tags'])]
        inq, outq = InQ([('item', t, 0) for t in tasks] + [('end',)]), OutQ([])
        with open(os.devnull, 'w') as null:
            run_machine(C.TaskExecutor(id=1, inbound=inq, outbound=outq, template='{}', redirect_output=null, redirect_errors=null))
        for i, t in enumerate(tasks):
            got = dict(x.split('=', 1) for x in open(f'{lib.scratch()}/real{os.getpid()}.{i}').read().split('\0') if x)
            rec = {f: getattr(t, f) for f in FIELDS if f not in ('exit_status', 'completion_time', 'duration')}
            want, _ = wanted(case, inherited, rec, lib.scratch())
            for k, v in want.items():
                if k in ('TASK_OUTPATH', 'TASK_ERRPATH', '_', 'PWD', 'OLDPWD', 'SHLVL'):
                    continue
                if got.get(k) != v:
                    return f'process: {k} is {got.get(k)!r} and not {v!r}'
            if open(f'{lib.scratch()}/pwd{os.getpid()}').read().strip() != os.path.realpath(lib.scratch()):
                return 'process: other working directory'
    finally:
        restore()


def check_fresh(case):
    """A whole process: configured exports from the file and the environment."""
    f = os.path.join(lib.scratch(), f'fresh{os.getpid()}.toml')
    with open(f, 'w') as s:
        s.write(tomlkit.dumps({'export': case['export']}))
    code = ('import sys, json; sys.path.insert(0, sys.argv[1]); from hypershell.client import task_env; from hypershell.data.model import Task; '
            't = Task.new(args="x", tag={"a": "v"}); e = task_env(t); print(json.dumps([t.id, dict(e)]))')
    env = {**BASE, 'HYPERSHELL_CONFIG_FILE': f, **{f'HYPERSHELL_EXPORT_{k}': v for k, v in case['env'].items()}}
    p = subprocess.run([sys.executable, '-B', '-c', code, os.path.join(lib.REPO, 'src')], capture_output=True, text=True, env=env, cwd=lib.scratch(), timeout=120)
    if p.returncode:
        return f'process: {p.stderr[-300:]}'
    i, got = json.loads(p.stdout)
    want = {**flat(case['export']), **case['env'], 'TASK_ID': i, 'TASK_TAG_A': 'v', 'TASK_ARGS': 'x', 'TASK_CWD': lib.scratch()}
    for k, v in want.items():
        if got.get(k) != v and not (k == 'TASK_CWD' and os.path.realpath(got.get(k, '')) == os.path.realpath(v)):
            return f'process: {k} is {got.get(k)!r} and not {v!r}'


def check(case):
    return globals()['check_' + case['kind']](case)
