"""C20: host specifications.  A specification is a text over the grammar
     SPEC  = ENTRY (, ENTRY)*      ENTRY = NAME | PRE [ ITEM (, ITEM)* ] SUF      ITEM = D+ | D+ - D+
where NAME, PRE and SUF are any texts without comma and brackets (NAME not empty) and D is a decimal digit.
expand_pattern: loop rule over the items; from_pattern: its own contract for the recursive calls."""
import inspect
import re as _re
from pyvc.models import *
from pyvc.core import z3, EngineStop
from pyvc.values import uf, zstr, znum, SymSeq, Unit, Var, Map, seq_eq, norm
from pyvc import rex, runtime, parts
from pyvc.parts import Parts, Piece, piece, text, mk

NAMECH = rex.class_re(rex.negate([(ord(x), ord(x)) for x in ',[]']))
D = z3.Plus(rex.class_re([(48, 57)]))
ITEM = z3.Union(D, z3.Concat(D, z3.Re('-'), D))
BODY = z3.Concat(ITEM, z3.Star(z3.Concat(z3.Re(','), ITEM)))
NAME, FIX = z3.Plus(NAMECH), z3.Star(NAMECH)
ENTRY = z3.Union(NAME, z3.Concat(FIX, z3.Re('['), BODY, z3.Re(']'), FIX))
SPEC = z3.Concat(ENTRY, z3.Star(z3.Concat(z3.Re(','), ENTRY)))
INT = uf('int_of_text', z3.StringSort(), z3.IntSort())
HOST = lambda nm: SymStr(z3.String(nm))


class Class:
    """The class NodeList, with the contracts of its other methods in place of their bodies."""
    def __init__(self, real, **stubs):
        self.__dict__['real'], self.__dict__['stubs'] = real, stubs
    def __call__(self, it=()):
        if isinstance(it, Parts) or isinstance(it, (str, SymStr)):
            raise Unsupported('list of the characters of a text')
        return SymSeq(list(runtime.segs_of(it)) if runtime.segs_of(it) is not None else [Unit(x) for x in it])
    def __getattr__(self, name):
        if name in self.stubs:
            return self.stubs[name]
        for k in self.real.__mro__:
            if name in k.__dict__:
                v = k.__dict__[name]
                break
        else:
            raise AttributeError(name)
        if isinstance(v, classmethod):
            return lambda *a, **kw: v.__func__(self, *a, **kw)
        if isinstance(v, staticmethod):
            return v.__func__
        return rex.Rex(v) if isinstance(v, _re.Pattern) else v


def hosts(spec):
    """The hosts a specification denotes: for a recursive call, an arbitrary list determined by the text."""
    if isinstance(spec, Parts):
        return SymSeq([Var('hosts(' + z3.simplify(spec.z).sexpr() + ')', HOST)])
    if isinstance(spec, str):
        return SymSeq([Var(f'hosts({spec!r})', HOST)])
    raise Unsupported('host specification')


def numbers(body):
    return Var('numbers(' + z3.simplify(zstr(body)).sexpr() + ')', HOST)


def inner(spec):
    """The list inside the brackets (which may have been taken off)."""
    if isinstance(spec, Parts):
        p = list(spec.parts)
        if p[0] == '[' and p[-1] == ']':
            p = p[1:-1]
        if len(p) == 1 and isinstance(p[0], Piece) and p[0].re is BODY:
            return p[0]
    return None


def shape(c):
    k = c.choose([(k, None) for k in ('name', 'brackets', 'several')], 'specification')
    if k == 0:
        return 'name', text(piece('name', NAME))
    if k == 1:
        return 'brackets', text(piece('prefix', FIX), '[', piece('body', BODY), ']', piece('suffix', FIX))
    return 'several', text(piece('entry', ENTRY), ',', piece('rest', SPEC))


def from_pattern(M):
    def body(c):
        kind, p = shape(c)
        def rec(q, *a):
            c.prove('from_pattern: a recursive call is for a host specification', included_or_false(q), repr(q))
            c.prove('from_pattern: a recursive call is for a shorter text', z3.Length(zstr(q)) < z3.Length(p.z), repr(q))
            return hosts(q)
        def expand(q):
            b = inner(q)
            if b is None:
                c.fail('from_pattern: the bracketed list is expanded', repr(q))
            return SymSeq([numbers(SymStr(b.z))])
        cls = Class(M.NodeList, from_pattern=rec, expand_pattern=expand)
        with patched((M, 'NodeList', cls), (M, 're', rex.ReModule()), *rex.wrapped(M)):
            f = M.NodeList.real.__dict__['from_pattern']
            try:
                r = f.__func__(cls, p) if isinstance(f, classmethod) else f.__func__(p)
            except Exception as e:
                c.fail('from_pattern: every specification has hosts', f'{kind}: {e!r}')
        c.cover(kind)
        if kind == 'name':
            want = SymSeq([Unit(p)])
        elif kind == 'brackets':
            pre, _, b, _, suf = p.parts
            n = numbers(SymStr(b.z))
            want = SymSeq([Map(n, [(z3.BoolVal(True), [SymStr(z3.Concat(pre.z, n.gen.z, suf.z))])])])
        else:
            want = hosts(text(p.parts[0])) + hosts(text(p.parts[2]))
        c.prove(f'from_pattern: {kind}: exactly the denoted hosts in order', seq_eq(r, want), repr(r))
    return body


def included_or_false(q):
    if isinstance(q, Parts):
        return q.decide(SPEC) is True
    return bool(isinstance(q, str) and _re.fullmatch(r'[^,\[\]]+', q))


class Items:
    """body.split(','): the items of the list, with the loop rule  result after i items == flatmap(denote, items[:i])."""
    def __init__(self, b):
        self.b = b
    def __iter__(self):
        raise Unsupported('native iteration over the items')
    def vc_for(self, body):
        c = ctx()
        cells = dict(zip(body.__code__.co_freevars, body.__closure__ or ()))
        lists = [(n, x.cell_contents) for n, x in cells.items() if n not in () and is_list(x)]
        own = runtime.Cells(body)
        for n in own:
            if own.get(n) is not runtime.UNBOUND:
                raise Unsupported(f'loop variable {n}')
        if len(lists) != 1:
            raise Unsupported('the list being built')
        acc = lists[0][1]
        if len(acc.segs):
            raise Unsupported('the list being built is not empty')
        if c.choose([('all items', None), ('item', None)], 'items') == 0:
            acc._set([numbers(SymStr(self.b.z))])
            for n in own:
                own.set(n, Opaque('after the loop'))
            c.cover('all items')
            return None
        done = Var('done', HOST)
        acc._set([done])
        if c.choose([('number', None), ('range', None)], 'item') == 0:
            n = piece('number', D)
            item = text(n)
            r = body(item)
            c.cover('number')
            good = r is None and seq_eq(acc, SymSeq([done, Unit(SymStr(n.z))]))
            c.prove('expand_pattern: a number denotes itself', good, repr(acc))
            raise PathEnd('item')
        a, b = piece('first', D), piece('last', D)
        lo, hi = INT(a.z), INT(b.z)
        c.assume(z3.And(lo >= 0, lo <= hi))
        zero = lambda p: z3.PrefixOf(z3.StringVal('0'), p.z)
        c.assume(z3.Implies(zero(b), z3.And(zero(a), z3.Length(a.z) == z3.Length(b.z))))
        try:
            r = body(text(a, '-', b))
        except Exception as e:
            c.fail('expand_pattern: every range denotes numbers', repr(e))
        c.cover('range')
        segs = norm(acc.segs)
        if r is not None or len(segs) != 2 or segs[0] is not done and getattr(segs[0], 'name', '') != 'done':
            c.fail('expand_pattern: a range adds its numbers after those of the items before', repr(acc))
        m = segs[1]
        v = m if isinstance(m, Var) else getattr(m, 'var', None)
        if v is None or v.name not in c.env.get('spans', {}):
            raise Unsupported(f'numbers of a range: {m!r}')
        l2, h2 = c.env['spans'][v.name]
        c.prove('expand_pattern: a range denotes the numbers from its first to its last', z3.And(l2 == lo, h2 == hi + 1), repr(acc))
        branches = m.branches if isinstance(m, Map) else [(z3.BoolVal(True), [m.gen])]
        c.assume(v.n > 0)
        for cnd, vs in branches:
            if not c.feasible(core.as_z3_bool2(cnd)):
                continue
            t = runtime.b_str(v.gen)
            if len(vs) != 1:
                c.fail('expand_pattern: one host per number', repr(acc))
            z = zstr(vs[0])
            if z is None:
                c.fail('expand_pattern: numbers are texts', repr(vs))
            cnd = core.as_z3_bool2(cnd)
            c.prove('expand_pattern: zero padding is kept', z3.Implies(z3.And(cnd, zero(a)), z == parts.zfill(t, SymInt(z3.Length(a.z))).z), repr(acc))
            c.prove('expand_pattern: no padding without leading zero', z3.Implies(z3.And(cnd, z3.Not(zero(a))), z == t.z), repr(acc))
        raise PathEnd('item')


def is_list(x):
    try:
        return isinstance(x.cell_contents, SymSeq)
    except ValueError:
        return False


def expand(M):
    def body(c):
        b = piece('body', BODY)
        b.splits = {',': lambda: Items(b)}
        form = c.choose([('with brackets', None), ('without', None)], 'brackets')
        f = M.NodeList.__dict__['expand_pattern']
        cls = Class(M.NodeList)
        with patched((M, 're', rex.ReModule()), *rex.wrapped(M)):
            try:
                spec = text('[', b, ']') if form == 0 else text(b)
                r = f.__func__(cls, spec) if isinstance(f, classmethod) else f.__func__(spec)
            except EngineStop:
                raise
            except Exception as e:
                c.fail('expand_pattern: every list has numbers', repr(e))
        c.prove('expand_pattern: the numbers of all items in order', seq_eq(r, SymSeq([numbers(SymStr(b.z))])), repr(r))
    return body


def from_cmdline(M):
    def body(c):
        form = c.choose([(k, None) for k in ('absent', 'empty', 'given')], 'argument')
        configured, calls = SymSeq([Var('configured', HOST)]), []
        def rec(q, *a):
            c.prove('from_cmdline: the argument is expanded', included_or_false(q) and q is arg, repr(q))
            calls.append('pattern')
            return hosts(q) if kind != 'name' else SymSeq([Unit(q)])
        def conf(*a, **k):
            c.prove('from_cmdline: the configuration is used without a group', all(x is None for x in a) and all(x is None for x in k.values()))
            calls.append('config')
            return configured
        cls = Class(M.NodeList, from_pattern=rec, from_config=conf)
        kind, arg = (None, (None, '')[form]) if form < 2 else shape(c)
        with patched((M, 'NodeList', cls), (M, 're', rex.ReModule()), *rex.wrapped(M)):
            f = M.NodeList.real.__dict__['from_cmdline']
            try:
                r = f.__func__(cls, arg)
            except EngineStop:
                raise
            except Exception as e:
                c.fail('from_cmdline: every specification has hosts', f'{kind}: {e!r}')
        if kind is None:
            c.cover('configuration')
            c.prove('from_cmdline: without argument the configured hosts', seq_eq(r, configured) if calls == ['config'] else False, repr(r))
            return
        c.cover(kind)
        want = SymSeq([Unit(arg)]) if kind == 'name' else hosts(arg)
        c.prove(f'from_cmdline: {kind}: exactly the denoted hosts in order', seq_eq(r, want), repr(r))
    return body


class Blank:
    def __init__(self, *a): pass


def from_config(M):
    FORMS = ('no ssh section', 'no nodelist', 'text', 'list', 'groups', 'number', 'nothing')
    GROUPS = ('text', 'list', 'missing', 'number', 'empty list', 'empty text', 'section')
    def body(c):
        form = FORMS[c.choose([(k, None) for k in FORMS], 'ssh.nodelist')]
        named = c.choose([('no group', None), ('group', None)], 'group')
        inner = GROUPS[c.choose([(k, None) for k in GROUPS], 'group')] if named and form == 'groups' else None
        kind, pat = shape(c) if 'text' in (form, inner) else (None, None)
        listed = [mkval('str', f'host{i}') for i in range(c.choose([('1', None), ('3', None)], 'n') * 2 + 1)] if 'list' in (form, inner) else None
        mkv = {'text': lambda: pat, 'list': lambda: listed, 'number': lambda: 3, 'nothing': lambda: None, 'empty list': list, 'empty text': str, 'section': lambda: Section({'x': 'y'})}
        if form == 'groups':
            groups = {'other': ['never'], 'group2': 'never[1-2]'}
            if inner != 'missing':
                groups['group'] = mkv[inner]() if inner else ['never']
            value = Section(groups)
        else:
            value = mkv[form]() if form in mkv else None
        conf = Section({} if form == 'no ssh section' else {'ssh': Section({'args': 'x'} if form == 'no nodelist' else {'nodelist': value, 'args': 'x'})})
        calls = []
        def rec(q, *a):
            c.prove('from_config: the configured text is expanded', q is pat, repr(q))
            return hosts(q)
        cls = Class(M.NodeList, from_pattern=rec)
        error = None
        with patched((M, 'NodeList', cls), (M, 're', rex.ReModule()), (M, 'config', conf), (M, 'blame', lambda *a: 'user: file'), *rex.wrapped(M)):
            f = M.NodeList.real.__dict__['from_config']
            try:
                r = f.__func__(cls, 'group') if named else f.__func__(cls)
            except EngineStop:
                raise
            except Exception as e:
                error = e
        ok = (form in ('text', 'list') and not named) or inner in ('text', 'list')
        if error is not None:
            c.cover('rejected')
            c.prove('from_config: configured hosts are never refused', not ok, f'{form} {inner} {named}: {error!r}')
            c.prove('from_config: a rejection is a configuration error', isinstance(error, M.ConfigurationError), repr(error))
            return
        c.prove('from_config: hosts only where configured', ok, f'{form} {inner} {named}: {r!r}')
        c.cover('hosts of the group' if named else 'hosts of the list')
        want = hosts(pat) if pat is not None else SymSeq([Unit(h) for h in listed])
        c.prove('from_config: exactly the hosts configured, in order', seq_eq(r, want), repr(r))
    return body


class Section(dict):
    """A configuration section: its options are also attributes."""
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        try:
            return self[name]
        except KeyError:
            raise AttributeError(name)


def command(M):
    """hs cluster --ssh / --ssh-group: which specification the host list is made from."""
    def body(c):
        group = (None, mkval('str', 'group'))[c.choose([('no group', None), ('group', None)], '--ssh-group')]
        form = c.choose([('default', None), ('text', None)], '--ssh')
        mode = '<default>' if form == 0 else mkval('str', 'mode')
        if form:
            c.assume(z3.And(mode.z != '', mode.z != '<default>'))
        if group is not None:
            c.assume(z3.Length(group.z) > 0)
        lists = {'config': object(), 'cmdline': object()}
        calls, ran = [], []
        class N:
            @staticmethod
            def from_config(groupname=None):
                calls.append(('config', groupname))
                return lists['config']
            @staticmethod
            def from_cmdline(arg=None):
                calls.append(('cmdline', arg))
                return lists['cmdline']
        self = object.__new__(M.ClusterApp)
        self.__dict__.update(ssh_group=group, ssh_mode=mode, ssh_args=None, remote_exe='hs', port=50001, export_env=False)
        with patched((M, 'NodeList', N), (M, 'run_ssh', lambda **k: ran.append(k))):
            M.ClusterApp.run_ssh(self)
        c.prove('hs cluster --ssh: one cluster with the hosts asked for', len(ran) == 1 and len(calls) == 1 and ran[0]['nodelist'] is lists[calls[0][0]], str(calls))
        kind, arg = calls[0]
        if group is not None:
            c.cover('group')
            c.prove('hs cluster --ssh-group: the hosts of the group', kind == 'config' and exact(arg, group), str(calls))
        elif form == 0:
            c.cover('default')
            c.prove('hs cluster --ssh: without specification the configured hosts', arg is None or (kind == 'cmdline' and arg == ''), str(calls))
        else:
            c.cover('specification')
            c.prove('hs cluster --ssh: the hosts of the specification', kind == 'cmdline' and exact(arg, mode), str(calls))
    return body


def run(rep):
    M = mod('cluster.ssh')
    rep.run('NodeList.expand_pattern', expand(M), covers=['number', 'range', 'all items'])
    rep.run('NodeList.from_pattern', from_pattern(M), covers=['name', 'brackets', 'several'])
    rep.run('NodeList.from_cmdline', from_cmdline(M), covers=['configuration', 'name', 'brackets', 'several'])
    rep.run('NodeList.from_config', from_config(M), covers=['rejected', 'hosts of the group', 'hosts of the list'])
    rep.run('ClusterApp.run_ssh', command(mod('cluster')), covers=['group', 'default', 'specification'])
