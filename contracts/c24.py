"""C24: the environment of a task process.
  task_env        for an arbitrary variable name: the value is that of the task's own data if it is one of its variables, else that
                  of the exports, else the inherited one; nothing else is there.  Environments are layers over uninterpreted
                  mappings, so the claim is extensional and holds however the dictionary is put together.
  load_task_env   configured exports; every HYPERSHELL_EXPORT_<NAME> variable (loop rule: arbitrary variable) as written over them
  __collapse_lists  loop rule: an arbitrary entry
  executor        the process is started with exactly this environment, in the configured directory
Assumed: cmdkit.Namespace.to_env().flatten(prefix) gives one variable <PREFIX>_<PATH> per option (tried on every run)."""
from pyvc.models import *
from pyvc.core import z3, EngineStop
from pyvc.values import uf, zstr, mkstr, LOWER, UPPER
from pyvc import runtime

S = z3.StringSort()
TEXT = uf('text of a value', S, S)                     # keyed by the name of the field


class Layer(dict):
    """An environment (mapping of texts to texts) of any content; put together from layers."""
    def __init__(self, ops=()):
        super().__init__()
        self.ops = list(ops)                           # ('layer', name) | ('key', k, v), later ones win
    @classmethod
    def named(cls, name): return cls([('layer', name)])
    def vc_layers(self, pairs):
        r = Layer()
        for star, k, v in pairs:
            if star:
                r.update(v)
            else:
                r[k] = v
        return r
    def vc_dict(self, **k):
        r = self.copy()
        r.update(**k)
        return r
    def copy(self): return Layer(self.ops)
    __copy__ = copy
    def update(self, o=(), **k):
        if isinstance(o, Layer):
            self.ops += o.ops
        else:
            for a, b in list(o.items() if hasattr(o, 'items') else o):
                self[a] = b
        for a, b in k.items():
            self[a] = b
    def __setitem__(self, k, v):
        if zstr(k) is None:
            raise Unsupported('name of a variable')
        self.ops.append(('key', k, v))
    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r
    __ior__ = __or__
    def __ror__(self, o):
        r = Layer()
        r.update(o)
        r.update(self)
        return r
    def at(self, k):
        """(is defined, value) at a name."""
        z = zstr(k)
        dom, val = z3.BoolVal(False), z3.StringVal('')
        for op in self.ops:
            if op[0] == 'layer':
                d, v = uf(f'defined in {op[1]}', S, z3.BoolSort())(z), uf(f'value in {op[1]}', S, S)(z)
                if op[1] == 'tags':
                    d = z3.And(d, z3.PrefixOf('TASK_TAG_', z))
            else:
                d, v = z == zstr(op[1]), zstr(op[2])
                if v is None:
                    ctx().fail('environment: every value is text', repr(op))
            dom, val = z3.Or(dom, d), z3.If(d, v, val)
        return dom, val
    def __getitem__(self, k):
        d, v = self.at(k)
        if not ctx().branch(d):
            raise KeyError(k)
        return SymStr(v)
    vc_getitem = __getitem__
    def get(self, k, default=None):
        d, v = self.at(k)
        return SymStr(v) if ctx().branch(d) else default
    def vc_contains(self, k): return SymBool(self.at(k)[0])
    def __contains__(self, k): return ctx().branch(self.at(k)[0])
    def _no(self, *a, **k): raise Unsupported('entries of an environment')
    items = keys = values = __iter__ = __len__ = pop = setdefault = __bool__ = __delitem__ = _no
    def __repr__(self): return f'<environment {self.ops}>'
    def __eq__(self, o): return self is o
    __hash__ = None


class Value:
    """A field value as it is recorded."""
    def __init__(self, name): self.name = name
    def vc_str(self): raise Unsupported('text of a field value')
    def __repr__(self): return f'<{self.name}>'


class Tags(dict):
    """A dictionary of any tags."""
    def vc_dict(self): return self
    def copy(self): return self
    def _no(self, *a, **k): raise Unsupported('entries of the tags')
    items = keys = values = __iter__ = __len__ = pop = setdefault = __getitem__ = __setitem__ = __bool__ = _no


class Env:
    def __init__(self, data, raw=None): self.data, self.raw = data, raw
    def flatten(self, prefix=None):
        d = self.data
        if isinstance(d, Layer):
            raise Unsupported('flatten of an environment')
        if isinstance(d, Tags):
            if prefix != 'TASK_TAG':
                raise Unsupported('prefix of the tags')
            # tags at the top level: an attribute of Environ wins over a tag of the same name
            return Layer([('layer', 'tags'), ('key', 'TASK_TAG__PREFIX', mkval('str', 'attribute'))])
        if isinstance(d, Exports):
            return d.flat(prefix)
        if list(d) == ['tag'] and isinstance(d['tag'], Tags):
            if prefix != 'TASK':
                raise Unsupported('prefix of the tags')
            return Layer.named('tags')
        r = Layer()
        for k, v in d.items():
            if isinstance(v, Tags):
                if k.upper() != 'TAG' or prefix != 'TASK':
                    raise Unsupported('tags under another name')
                r.update(Layer.named('tags'))
                continue
            if not isinstance(v, Value):
                raise Unsupported(f'value {v!r}')
            r[f'{prefix}_{k.upper()}' if prefix else k.upper()] = SymStr(TEXT(z3.StringVal(v.name)))
        return r


class NS(dict):
    """cmdkit.Namespace around arbitrary data."""
    def __init__(self, data=None, **kw):
        super().__init__()
        if kw:
            raise Unsupported('Namespace of keywords')
        self.data = {} if data is None else data
    @classmethod
    def from_dict(cls, d): return cls(d)
    def to_env(self): return Env(self.data)
    def __setitem__(self, k, v): self.data[k] = v
    def __getattr__(self, n): raise Unsupported(f'Namespace.{n}')
    def items(self): return self.data.items()
    vc_dict = lambda self: self.data


class Exports(NS):
    """config.export, or the same with its lists as text."""
    collapsed = False
    def __init__(self): super().__init__({})
    def to_env(self): return Env(self)
    def flat(self, prefix):
        if prefix is not None:
            ctx().fail('exports: a name has no prefix', repr(prefix))
        return Layer.named('exports' if self.collapsed else 'exports with lists as they are')


class TaskStub:
    def __init__(self, C, name, tags):
        self.id = mkval('str', f'{name}_id')
        self.name, self.tag, self.C = name, tags, C
    def to_json(self):
        return {f: self.tag if f == 'tag' else Value(f'{self.name}.{f}') for f in self.C.Task.columns}
    to_dict = to_json
    def __getattr__(self, n):
        raise Unsupported(f'task.{n}')


class OsPath:
    def join(self, *a):
        zs = []
        for x in a:
            zs += [z3.StringVal('/'), zstr(x)] if zs else [zstr(x)]
        return SymStr(z3.Concat(*zs))
    def __getattr__(self, n): raise Unsupported(f'os.path.{n}')


def stubs(C, c, cwd):
    osm = Module(environ=Layer.named('inherited'), path=OsPath(), name='posix')
    return [(C, 'os', osm), (C, 'load_task_env', lambda: Layer.named('exports')), (C, 'Namespace', NS), (C, 'config', Module(task=Module(cwd=cwd))),
            (C, 'default_path', Module(lib=mkval('str', 'lib')))]


def own_env(C):
    fields = [f for f in C.Task.columns if f not in ('tag', 'outpath', 'errpath')]
    def body(c):
        cwd = mkval('str', 'cwd')
        tagged = c.choose([('tags', None), ('no tags', None)], 'tags') == 0
        task = TaskStub(C, 'task', Tags() if tagged else None)
        k = z3.String('name of a variable')
        in_tags = lambda k: z3.And(uf('defined in tags', S, z3.BoolSort())(k), z3.PrefixOf('TASK_TAG_', k))
        with patched(*stubs(C, c, cwd)):
            try:
                env = C.task_env(task)
            except Exception as e:
                c.fail('task_env: every task has an environment', repr(e))
                return
        if not isinstance(env, Layer):
            raise Unsupported(f'environment {type(env)}')
        c.cover('tags' if tagged else 'no tags')
        dom, val = env.at(SymStr(k))
        own = z3.Or(*[k == 'TASK_' + f.upper() for f in fields])
        for f in fields:
            z = z3.StringVal('TASK_' + f.upper())
            d, v = env.at(SymStr(z))
            c.prove(f'task_env: a variable for the field {f}', z3.And(d, v == TEXT(z3.StringVal(f'task.{f}'))))
        d, v = env.at('TASK_CWD')
        c.prove('task_env: the configured working directory', z3.And(d, v == cwd.z))
        paths = z3.Or(k == 'TASK_OUTPATH', k == 'TASK_ERRPATH', k == 'TASK_CWD')
        if tagged:
            tv = uf('value in tags', S, S)
            c.prove('task_env: a variable for every tag with its value', z3.Implies(in_tags(k), z3.And(dom, val == tv(k))))
            own = z3.Or(own, in_tags(k))
        own = z3.Or(own, paths)
        ed, ev = uf('defined in exports', S, z3.BoolSort())(k), uf('value in exports', S, S)(k)
        idm, iv = uf('defined in inherited', S, z3.BoolSort())(k), uf('value in inherited', S, S)(k)
        c.prove('task_env: configured exports, unless the task has a variable of this name', z3.Implies(z3.And(z3.Not(own), ed), z3.And(dom, val == ev)))
        c.prove('task_env: inherited variables, unless overridden', z3.Implies(z3.And(z3.Not(own), z3.Not(ed), idm), z3.And(dom, val == iv)))
        c.prove('task_env: no other variables', z3.Implies(dom, z3.Or(own, ed, idm)))
    return body


def paths(C):
    def body(c):
        a, b = TaskStub(C, 'a', Tags()), TaskStub(C, 'b', Tags())
        for t in (a, b):
            c.assume(z3.And(z3.Length(t.id.z) > 0, z3.Not(z3.Contains(t.id.z, '/'))))
        c.assume(a.id.z != b.id.z)
        with patched(*stubs(C, c, mkval('str', 'cwd'))):
            ea, eb = C.task_env(a), C.task_env(b)
        v = {}
        for t, e in (('a', ea), ('b', eb)):
            for n in ('TASK_OUTPATH', 'TASK_ERRPATH'):
                d, v[t, n] = e.at(n)
                c.prove('task_env: an output and an error path', d, n)
        for x in ('TASK_OUTPATH', 'TASK_ERRPATH'):
            for y in ('TASK_OUTPATH', 'TASK_ERRPATH'):
                c.prove('task_env: paths of distinct tasks are distinct', v['a', x] != v['b', y], f'{x} {y}')
        c.prove('task_env: output and error paths are distinct', v['a', 'TASK_OUTPATH'] != v['a', 'TASK_ERRPATH'])
        c.cover('two tasks')
    return body


# ---------------------------------------------------------------------------------------------- exports

PRE = 'HYPERSHELL_EXPORT_'


def variables(body):
    out = []
    for x in body.__closure__ or ():
        try:
            out.append(x.cell_contents)
        except ValueError:
            pass
    return out


class EnvEntries:
    """os.environ.items() of any environment."""
    def __init__(self, c): self.c = c
    def __iter__(self): raise Unsupported('native iteration over the environment')
    def vc_for(self, body):
        c = self.c
        targets = [x for x in variables(body) if isinstance(x, Layer) and not isinstance(x, Environment)]
        cells = runtime.Cells(body)
        for n in cells:
            if isinstance(cells.get(n), Layer):
                raise Unsupported('exports replaced in the loop')
        if len(targets) != 1:
            raise Unsupported('exports of the loop')
        t = targets[0]
        if c.choose([('all', None), ('one', None)], 'variables') == 0:
            t.ops.append(('layer', 'raw exports'))
            for n in cells:
                cells.set(n, Opaque('after the loop'))
            return None
        name, value = mkval('str', 'name'), mkval('str', 'value')
        before = len(t.ops)
        if body((name, value)) is not None:
            c.fail('load_task_env: every variable is looked at')
        new = t.ops[before:]
        export = z3.And(z3.PrefixOf(PRE, name.z), name.z != PRE)
        if not new:
            c.prove('load_task_env: every exported variable is passed on', z3.Not(export))
            c.cover('other variable')
        else:
            c.cover('exported variable')
            c.prove('load_task_env: only exported variables are passed on', export)
            ok = len(new) == 1 and new[0][0] == 'key'
            c.prove('load_task_env: one variable', ok, repr(new))
            c.prove('load_task_env: under its own name', zstr(new[0][1]) == UPPER(z3.SubString(name.z, len(PRE), z3.Length(name.z) - len(PRE))), repr(new))
            c.prove('load_task_env: as written', zstr(new[0][2]) == value.z if zstr(new[0][2]) is not None else False, repr(new))
        raise PathEnd('arbitrary variable')


class Environment(Layer):
    def items(self): return EnvEntries(ctx())


def exports(H):
    def body(c):
        osm = Module(environ=Environment([('layer', 'inherited')]), name='posix')
        given = Exports()
        def collapse(ns):
            c.prove('load_task_env: the configured exports', ns is given)
            r = Exports()
            r.collapsed = True
            return r
        with patched((H, 'os', osm), (H, 'config', Module(export=given)), (H, '__collapse_lists', collapse)):
            env = getattr(H.load_task_env, '__wrapped__', H.load_task_env)()
        if not isinstance(env, Layer):
            raise Unsupported('exports')
        k = z3.String('name of a variable')
        d, v = env.at(SymStr(k))
        c.cover('exports')
        wd, wv = Layer([('layer', 'exports'), ('layer', 'raw exports')]).at(SymStr(k))
        c.prove('load_task_env: configured exports and exported variables, the latter first', z3.And(d == wd, z3.Implies(d, v == wv)))
    return body


KINDS = ('section', 'list', 'text', 'number', 'boolean', 'null')


class ExportEntries:
    def __init__(self, c): self.c = c
    def __iter__(self): raise Unsupported('native iteration over the exports')
    def vc_for(self, body):
        c = self.c
        target = [x for x in variables(body) if type(x) is NS and not isinstance(x.data, Sub)]
        if len(target) != 1 or target[0].data:
            raise Unsupported('result of the loop')
        t = target[0]
        if c.choose([('all', None), ('one', None)], 'entries') == 0:
            t.complete = True
            cells = runtime.Cells(body)
            for n in cells:
                cells.set(n, Opaque('after the loop'))
            return None
        kind = KINDS[c.choose([(k, None) for k in KINDS], 'entry')]
        v = {'section': lambda: NS(Sub()), 'list': lambda: seqvar('members', lambda nm: SymStr(z3.String(nm))), 'text': lambda: mkval('str', 'value'),
             'number': lambda: mkval('int', 'value'), 'boolean': lambda: mkval('bool', 'value'), 'null': lambda: None}[kind]()
        if body(('option', v)) is not None:
            c.fail('exports: every option is handled')
        c.cover(kind)
        c.prove('exports: every option is kept under its name', list(t.data) == ['option'], repr(t.data))
        got = t.data['option']
        if kind == 'section':
            c.prove('exports: options of a section are handled alike', isinstance(got, Done) and got.of is v, repr(got))
        elif kind == 'list':
            want = runtime.join(':', v)
            c.prove('exports: a list is a path of its members', zstr(got) is not None and zstr(got) == want.z, repr(got))
        else:
            c.prove('exports: other values are kept', got is v, repr(got))
        raise PathEnd('arbitrary entry')


class Sub(dict):
    """A section with any options."""
    def items(self): return ExportEntries(ctx())


class Done(NS):
    def __init__(self, of):
        super().__init__({})
        self.__dict__['of'] = of


def collapse(H):
    def body(c):
        real = getattr(H, '__collapse_lists')
        top = NS(Sub())
        def rec(ns):
            if ns is top:
                c.fail('exports: recursion on the same section')
            return Done(ns)
        with patched((H, 'Namespace', NS), (H, '__collapse_lists', rec)):
            r = real(top)
        c.cover('all')
        c.prove('exports: the result has all options', type(r) is NS and getattr(r, '__dict__', {}).get('complete') is True)
    return body


# --------------------------------------------------------------------------------------------- executor

def start(C):
    from contracts.exec_model import World
    def body(c):
        capture = c.choose([('capture', None), ('redirect', None)], 'output') == 0
        w = World(c, capture)
        cwd = Opaque('working directory')
        with patched((C, 'config', Module(task=Module(cwd=cwd)))):
            step_until(w.m, ['GET_LOCAL'])
            step_until(w.m, ['GET_LOCAL', 'WAIT_TASK'], ghost=lambda: {'n': len(w.events)})
        if not w.launches:
            return
        c.cover('started')
        a, k, p, when = w.launches[0]
        t = w.received[0]
        c.prove('start: the process has the environment of this task', len(w.envs) == 1 and w.envs[0][0] is t and k.get('env') is w.envs[0][1])
        c.prove('start: in the configured directory', k.get('cwd') is cwd, repr(k.get('cwd')))
        if capture:
            e = w.envs[0][1]
            got = t.written()
            c.prove('start: captured output has the paths of the environment', conj([veq(got.get('outpath'), e['TASK_OUTPATH']), veq(got.get('errpath'), e['TASK_ERRPATH'])]))
    return body


def to_json(M):
    """The record given to task_env: every field of the task."""
    def body(c):
        t = TaskRec('task')
        try:
            d = M.Task.to_json(t)
        except AttributeError as e:
            raise Unsupported(str(e))
        c.prove('to_json: one entry per field', set(d) == set(M.Task.columns), str(sorted(d)))
        for f, v in d.items():
            x = getattr(t, f)
            if f.endswith('_time'):
                continue                      # text that denotes it (C01)
            c.prove(f'to_json: the field {f}', v is x or exact(v, x), f)
        c.cover('fields')
    return body


def run(rep):
    C, H, M = mod('client'), mod('core.config'), mod('data.model')
    rep.run('task_env', own_env(C), covers=['tags', 'no tags'])
    rep.run('task_env (paths)', paths(C), covers=['two tasks'])
    rep.run('load_task_env', exports(H), covers=['exported variable', 'other variable', 'exports'])
    rep.run('__collapse_lists', collapse(H), covers=list(KINDS) + ['all'])
    rep.run('TaskExecutor.start_task', start(C), covers=['started'])
