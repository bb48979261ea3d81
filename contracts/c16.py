"""C16: template expansion.  The template is an arbitrary text, decomposed by the brace patterns into
t_0 {k_1} t_1 ... {k_n} t_n (any n); the loop over the patterns is verified by its invariant for an arbitrary
pattern i, the expansion routines are verified for every key and every argument text."""
from pyvc.models import *
from pyvc.core import z3, EngineStop
from pyvc.values import uf, zstr, mkstr, Scalar, STRIP, SymBytes
from pyvc import rex, runtime
from pyvc.rex import Rex, ReModule, sp, sc
import math
import os as real_os
import datetime as real_dt

S = z3.StringSort()
F = {n: uf('c16.' + n, S, S) for n in ('dirname', 'basename', 'root', 'ext', 'bare', 'shell')}
KEYCH = rex.class_re(rex.negate([(10, 10), (125, 125)]))
KEY = z3.Star(KEYCH)
DIG = rex.class_re(rex.category(r'\d'))
INT = z3.Concat(z3.Option(z3.Re('-')), z3.Plus(DIG))
OI, COL = z3.Option(INT), z3.Re(':')
SLICE = z3.Union(INT, z3.Concat(OI, COL, OI), z3.Concat(OI, COL, OI, COL, OI))
SINGLE = INT


class Pos(Sym):
    def __init__(self, name):
        self.name = name
    def __repr__(self):
        return f'<position {self.name}>'
    def __bool__(self):
        raise Unsupported('truth of a position')
    def __eq__(self, o):
        return self is o
    def __hash__(self):
        return id(self)


PREV, START, END, LAST = Pos('end of the previous pattern'), Pos('start of the pattern'), Pos('end of the pattern'), Pos('end of the last pattern')


class Key(SymStr):
    """The text between the braces."""
    def strip(self, chars=None):
        if chars is not None:
            raise Unsupported('strip of the key with characters')
        r = SymStr.strip(self)
        ctx().assume(z3.InRe(r.z, KEY))          # part of a text without line break or closing brace
        return r


class Match:
    def __init__(self, w):
        self.w = w
        self.string, self.re = w.template, None
    def __bool__(self):
        return True
    def groups(self, default=None):
        return (self.w.key,)
    def group(self, n=0):
        return self.w.key if n == 1 else mkstr(self.w.full) if n == 0 else self._bad()
    __getitem__ = group
    def _bad(self):
        raise IndexError('no such group')
    def start(self, n=0):
        return START if n == 0 else _no()
    def end(self, n=0):
        return END if n == 0 else _no()
    def span(self, n=0):
        return (START, END) if n == 0 else _no()


def _no():
    raise Unsupported('position of a group')


class Tpl(SymStr):
    """The template."""
    def __init__(self, w):
        SymStr.__init__(self, z3.String('template'))
        self.w = w
    def __getitem__(self, ix):
        w = self.w
        if not isinstance(ix, slice) or ix.step is not None:
            raise Unsupported('indexing of the template')
        t = {(PREV, START): w.text, (START, END): w.full, (PREV, END): z3.Concat(w.text, w.full), (LAST, None): w.tail, (PREV, PREV): z3.StringVal(''),
             (START, START): z3.StringVal(''), (END, END): z3.StringVal(''), (None, None): self.z}
        a, b = ix.start, ix.stop
        if (a, b) not in t:
            raise Unsupported(f'template[{a}:{b}]')
        return mkstr(t[a, b])
    def vc_re_search(self, rx):
        self.w.pattern(rx)
        return Match(self.w) if self.w.some() else None
    def vc_re_finditer(self, rx):
        self.w.pattern(rx)
        return Matches(self.w)
    def vc_re_sub(self, rx, repl):
        self.w.pattern(rx)
        w = self.w
        if not callable(repl):
            raise Unsupported('re.sub with a text')
        if w.loop() == 'iteration':
            w.chunk(repl(Match(w)))
            raise PathEnd('arbitrary iteration')
        return mkstr(z3.Concat(w.result, w.tail))


class Matches:
    def __init__(self, w):
        self.w = w
    def __iter__(self):
        raise Unsupported('iteration over the patterns')
    def vc_for(self, body):
        """Loop rule.  Invariant: text accumulators hold the output for everything before the text that
        precedes the current pattern, position variables hold the end of the previous pattern."""
        w = self.w
        cells = runtime.Cells(body)
        roles = {}
        for n in cells:
            v = cells.get(n)
            if isinstance(v, str) and v == '':
                roles[n] = 'out'
            elif v == 0 and type(v) is int:
                roles[n] = 'pos'
            elif isinstance(v, SymSeq) and v.concrete and len(v) == 0:
                roles[n] = 'parts'
            elif v is runtime.UNBOUND:
                roles[n] = 'local'
            else:
                roles[n] = 'other'
        # list accumulators are changed in place and need not be assigned in the loop
        code = body.__code__
        for n, cl in zip(code.co_freevars, body.__closure__ or ()):
            if n in roles:
                continue
            try:
                v = cl.cell_contents
            except ValueError:
                continue
            if isinstance(v, SymSeq) and v.concrete and len(v) == 0:
                cells.cells[n] = cl
                roles[n] = 'parts'
        if w.loop() == 'iteration':
            for n, r in roles.items():
                if r == 'out':
                    cells.set(n, SymStr(w.before))
                elif r == 'pos':
                    cells.set(n, PREV)
                elif r == 'parts':
                    cells.set(n, SymSeq(elems=[SymStr(w.before)]))
                elif r == 'other':
                    raise Unsupported(f'loop variable {n}')
            r = body(Match(w))
            if r is not None:
                raise Unsupported('loop over the patterns left early')
            for n, r in roles.items():
                v = cells.get(n)
                if r == 'out':
                    w.whole(v)
                elif r == 'parts':
                    w.whole(runtime.join('', v))
                elif r == 'pos':
                    w.c.prove('expand: the text after a pattern starts at its end', v is END)
            raise PathEnd('arbitrary iteration')
        for n, r in roles.items():
            if r == 'out':
                cells.set(n, SymStr(w.result))
            elif r == 'pos':
                cells.set(n, LAST)
            elif r == 'parts':
                cells.set(n, SymSeq(elems=[SymStr(w.result)]))
            elif r == 'local':
                cells.set(n, Opaque('after the loop'))
        return None


class Words(Sym):
    """args.split()"""
    def __init__(self, args):
        self.args = args


class Args(SymStr):
    def split(self, sep=None, maxsplit=-1):
        if sep is not None or maxsplit != -1:
            raise Unsupported('split of the arguments by something else')
        return Words(self)


class OsPath:
    sep = '/'
    @staticmethod
    def dirname(p): return SymStr(F['dirname'](zstr(p)))
    @staticmethod
    def basename(p): return SymStr(F['basename'](zstr(p)))
    @staticmethod
    def split(p): return (OsPath.dirname(p), OsPath.basename(p))
    @staticmethod
    def splitext(p):
        z = zstr(p)
        r, e, s = F['root'](z), F['ext'](z), F['bare'](z)
        c = ctx()
        c.assume(z == z3.Concat(r, e))
        if c.branch(e == '', 'no extension'):
            return (SymStr(r), '')
        c.assume(e == z3.Concat(z3.StringVal('.'), s))
        c.assume(z3.And(z3.Not(z3.Contains(s, '.')), z3.Not(z3.Contains(s, '/'))))
        return (SymStr(r), mkstr(z3.Concat(z3.StringVal('.'), s)))


class Failure(Exception):
    """Whatever a user expression or the shell raises."""


class World:
    def __init__(self, c, T):
        self.c, self.T = c, T
        s = lambda n: z3.String(n)
        self.before, self.text, self.result, self.tail = s('output before'), s('text before the pattern'), s('output of all patterns'), s('text after the last pattern')
        self.key = Key(s('key'))
        c.assume(z3.InRe(self.key.z, KEY))
        self.full = z3.Concat(z3.StringVal('{'), self.key.z, z3.StringVal('}'))
        self.args = Args(s('args'))
        self.template = Tpl(self)
        self.n = None
        self.calls = []
        self.failed = False
        self.phase = None
        self.pats = []

    # -- decomposition
    def pattern(self, rx):
        """The patterns found are those between a brace and the next closing brace of the line."""
        c = self.c
        p = rx.parsed
        it = list(p.items)
        if len(it) == 3 and it[1][0] is sc.SUBPATTERN and not (p.begin or p.end or p.zend) and rex.charset(it[0]) and rex.charset(it[2]):
            sub = list(it[1][1][3])
            close = rex.charset(it[2])
            g = rex.lang(sub)
            if len(sub) == 1 and sub[0][0] in (sc.MIN_REPEAT, sc.MAX_REPEAT) and len(sub[0][1][2]) == 1:
                cs = rex.charset(list(sub[0][1][2])[0])
                if cs is not None and sub[0][0] is sc.MIN_REPEAT:        # shortest: no closing character inside
                    lo, hi = sub[0][1][:2]
                    if (lo, hi) != (0, sc.MAXREPEAT):
                        raise Unsupported('pattern for patterns')
                    g = z3.Star(rex.class_re(rex.inter(cs, rex.negate(close))))
                elif cs is not None and not rex.inter(cs, close):
                    pass
                elif cs is not None:                                     # longest
                    g = rex.lang(sub)
                if rex.charset(it[0]) == [(123, 123)] and close == [(125, 125)]:
                    eq, wit = rex.equal_lang(g, KEY)
                    if eq is None:
                        raise Unsupported('pattern for patterns')
                    c.prove('expand: what stands between a brace and the next closing brace of the line is a pattern', eq, f'differs for {wit}')
                    return
                c.fail('expand: patterns are enclosed in braces', rx.pattern)
        raise Unsupported(f'pattern for patterns: {rx.pattern}')

    def some(self):
        if self.n is None:
            self.n = self.c.choose([('no pattern', None), ('patterns', None)], 'template')
            if self.n == 0:
                self.c.assume(self.result == '')
                self.c.assume(self.tail == self.template.z)
        return self.n == 1

    def loop(self):
        if not self.some():
            return 'exit'
        k = self.c.choose([('all expanded', None), ('iteration', None)], 'patterns')
        self.phase = 'iteration' if k else 'exit'
        return self.phase

    # -- specification
    def whole(self, v):
        """v: the output including the current pattern."""
        pre = mkstr(z3.Concat(self.before, self.text))
        self.spec(lambda want: veq(v, pre + want), 'the text before the pattern is kept and')

    def chunk(self, v):
        self.spec(lambda want: veq(v, want), '')

    def spec(self, eq, pre):
        c, a = self.c, self.args.z
        s = STRIP(self.key.z)
        fn = {'': a, '.': F['dirname'](a), '..': F['dirname'](F['dirname'](a)), '/': F['basename'](a), '/-': F['root'](F['basename'](a)),
              '-': F['root'](a), '+': F['ext'](a)}
        doc = {'': 'the arguments', '.': 'the parent directory', '..': 'the second parent directory', '/': 'the base name', '/-': 'the base name without extension',
               '-': 'the path without extension', '+': 'the extension', '++': 'the extension without dot'}
        for k in list(fn) + ['++']:
            if not c.feasible(s == k):
                continue
            c.assume(s == k)
            c.cover('{' + k + '}')
            if k == '++':
                want = z3.simplify(zstr(OsPath.splitext(self.args)[1]))
                want = want if z3.is_string_value(want) else F['bare'](a)
            else:
                want = fn[k]
            c.prove(f'expand: {pre} {{{k}}} becomes {doc[k]}', eq(SymStr(want)))
            c.prove(f'expand: {{{k}}} runs nothing', not self.calls)
            return
        for form, (o, cl) in FORMS.items():
            cond = z3.InRe(s, z3.Concat(z3.Re(o), z3.Full(z3.ReSort(S)), z3.Re(cl)))
            if not c.feasible(cond):
                continue
            c.prove('expand: a pattern has one meaning', cond)
            c.cover(form)
            kinds = [k for k, *_ in self.calls]
            c.prove(f'expand: a {form} pattern is evaluated exactly once and nothing else is', kinds == [form], str(kinds))
            _, expr, val = self.calls[0]
            if form == 'shell':
                if not (z3.is_app(expr) and expr.decl().name() == 'py_replace' and expr.num_args() == 3):
                    c.fail('expand: the arguments are put in place of @', str(expr))
                c.prove('expand: the arguments are put in place of @', z3.And(expr.arg(1) == '@', expr.arg(2) == a))
                expr = expr.arg(0)
            c.prove(f'expand: the {form} evaluated is the one written', z3.Concat(z3.StringVal(o), expr, z3.StringVal(cl)) == s)
            c.prove(f'expand: {pre} a {form} pattern becomes its value', eq(SymStr(val)))
            return
        c.fail('expand: an unknown pattern is an error', str(s))

    # -- evaluators
    def may_fail(self, what):
        if self.c.choose([('ok', None), ('raises', None)], what):
            self.failed = True
            raise Failure(what)

    def eval(self, text, glob=None, loc=None):
        c = self.c
        z = zstr(text)
        if loc is not None:
            raise Unsupported('eval with locals')
        glob = {} if glob is None else glob
        expr = rex.peel(z, 'lambda x: ', '')
        if expr is not None:
            want = {'os': real_os, 'path': real_os.path, 'math': math, 'dt': real_dt}
            got = {k: v for k, v in dict(glob).items() if k != '__builtins__'}
            c.prove('lambda: the documented modules are available under their names', all(k in got and (got[k] is want[k] or (k == 'os' and isinstance(got[k], Module)) or (k == 'path' and got[k] is OsPath)) for k in want), str(sorted(got)))
            self.may_fail('lambda')
            return Lambda(self, expr)
        inner = rex.peel(z, 'chunks[', ']')
        if inner is None:
            raise Unsupported(f'eval of {text}')
        c.prove('slice: only a documented slice of the words is evaluated', rex.member(inner, SLICE), str(text))
        ch = glob.get('chunks')
        c.prove('slice: the words of the arguments are sliced', isinstance(ch, Words) and ch.args is self.args)
        if self.c.choose([('ok', None), ('raises', None)], 'slice'):
            self.calls.append(('slice', inner, None))
            self.failed = True
            raise IndexError('list index out of range')
        if c.branch(rex.member(inner, SINGLE), 'single word'):
            v = z3.String(c.fresh_name('word'))
            self.calls.append(('slice', inner, v))
            return SymStr(v)
        seq = seqvar('words', lambda n: mkval('str', n))
        self.calls.append(('slice', inner, z3.String("join(' ', words)")))
        return seq

    def shell(self, cmd, kw, captured):
        c = self.c
        c.prove('shell: the expression is run by the shell', kw.get('shell') is True and isinstance(cmd, (str, SymStr)))
        c.prove('shell: its output is used', captured)
        c.prove('shell: environment, directory and input are those of the client', not {k for k in kw if kw[k] is not None} - {'shell', 'check', 'stdout', 'capture_output', 'stderr', 'text', 'encoding', 'universal_newlines', 'errors'}, str(kw))
        if c.choose([('ok', None), ('fails', None)], 'shell'):
            self.failed = True
            raise Failure('non-zero exit status')
        out = F['shell'](zstr(cmd))
        self.calls.append(('shell', zstr(cmd), STRIP(out)))
        text = kw.get('text') or kw.get('encoding') or kw.get('universal_newlines')
        return SymStr(out) if text else Out(self, SymStr(out))


class Out(SymBytes):
    __slots__ = ('w',)
    def __init__(self, w, text):
        SymBytes.__init__(self, text)
        self.w = w
    def decode(self, *a, **k):
        if self.w.c.choose([('ok', None), ('undecodable', None)], 'decode'):
            self.w.failed = True
            raise UnicodeDecodeError('utf-8', b'', 0, 1, 'invalid')
        return self.text
    def strip(self, *a):
        raise Unsupported('strip of bytes')


class Lambda:
    def __init__(self, w, expr):
        self.w, self.expr = w, expr
    def __call__(self, x):
        w = self.w
        w.c.prove('lambda: evaluated for the coerced arguments', isinstance(x, Coerced) and x.of is w.args)
        w.may_fail('lambda body')
        v = uf('c16.lambda', S, S, S)(self.expr, w.args.z)
        w.calls.append(('lambda', self.expr, v))
        return Value(w, v)


class Value(Sym):
    def __init__(self, w, v):
        self.w, self.v = w, v
    def vc_str(self):
        self.w.may_fail('str of the value')
        return SymStr(self.v)


class Coerced(Sym):
    def __init__(self, of):
        self.of = of


class Subprocess:
    def __init__(self, w):
        self.w = w
    PIPE = -1
    DEVNULL = -3
    STDOUT = -2
    CalledProcessError = Failure
    def check_output(self, cmd, **kw):
        return self.w.shell(cmd, kw, True)
    def run(self, cmd, **kw):
        if kw.get('check') is not True:
            raise Unsupported('subprocess.run without check')
        out = self.w.shell(cmd, kw, kw.get('capture_output') is True or kw.get('stdout') == -1)
        return Module(stdout=out, returncode=0, stderr=None)
    def __getattr__(self, a):
        raise Unsupported(f'subprocess.{a}')


FORMS = {'slice': ('[', ']'), 'lambda': ('=', '='), 'shell': ('%', '%')}


def uncached(cls):
    """functools.lru_cache returns what the function returns for an equal argument."""
    import functools
    out = []
    for k, v in list(vars(cls).items()):
        f = v.__func__ if isinstance(v, (staticmethod, classmethod)) else v
        if isinstance(f, functools._lru_cache_wrapper):
            g = f.__wrapped__
            out.append((cls, k, type(v)(g) if v is not f else g))
    return out


def expand(M):
    def body(c):
        w = World(c, M.Template)
        os_ = Module(path=OsPath, sep='/')
        M.__dict__['eval'] = w.eval
        patches = [(M, 're', ReModule()), (M, 'os', os_), (M, 'subprocess', Subprocess(w)), (M, 'smart_coerce', lambda x: Coerced(x))]
        patches += rex.wrapped(M, M.Template) + uncached(M.Template)
        try:
            with patched(*patches):
                t = M.Template(w.template)
                Error = M.Template.Error
                try:
                    out = t.expand(w.args)
                except Error as e:
                    c.prove('expand: a template without patterns is no error', w.n == 1)
                    s = STRIP(w.key.z)
                    known = z3.Or(*[s == k for k in ('', '.', '..', '/', '/-', '-', '+', '++')])
                    forms = z3.Or(*[z3.InRe(s, z3.Concat(z3.Re(o), (SLICE if f == 'slice' else z3.Full(z3.ReSort(S))), z3.Re(x))) for f, (o, x) in FORMS.items()])
                    c.prove('expand: an error is raised only for an unknown pattern or a failed evaluation', w.failed or z3.Not(z3.Or(known, forms)), repr(e))
                    c.cover('failed evaluation' if w.failed else 'unknown pattern')
                    return
                except Exception as e:
                    if isinstance(e, EngineStop):
                        raise
                    c.fail('expand: failures are reported as template errors', repr(e))
                    return
                c.prove('expand: a failed evaluation is an error', not w.failed)
                c.prove('expand: everything is expanded or kept, in order', veq(out, mkstr(z3.Concat(w.result, w.tail))))
                c.prove('expand: the template itself is kept', t.template is w.template)
                c.cover('template without pattern' if w.n == 0 else 'template with patterns')
        finally:
            M.__dict__.pop('eval', None)
    return body


def default(M):
    def body(c):
        w = World(c, M.Template)
        c.prove('the default template is the arguments', M.DEFAULT_TEMPLATE == '{}' and M.Template().template == '{}')
    return body


def run(rep):
    M = mod('core.template')
    rep.run('Template.expand', expand(M), covers=['template without pattern', 'template with patterns', 'failed evaluation', 'unknown pattern', 'slice', 'lambda', 'shell']
            + ['{' + k + '}' for k in ('', '.', '..', '/', '/-', '-', '+', '++')])
    rep.run('DEFAULT_TEMPLATE', default(M))
