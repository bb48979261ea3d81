"""C32: `hs config get` and `hs config which` show the settings as they are.
  ConfigGetApp.run            what is printed is what the configuration asked for has at the path: loop rule over an arbitrary
                              number of inner sections, arbitrary configurations (any setting may be missing, a value or a section)
  print_output, format_output texts verbatim, anything else as JSON, sections as TOML
  format_section              exactly the section under its path; the lines of the document other than headings untouched
  ConfigWhichApp.run          the most specific source, the value in effect and the default"""
from pyvc.models import *
from pyvc.core import z3
from pyvc.values import SymBool, SymStr, mknum, veq
from pyvc.runtime import concat
from pyvc import runtime
from contracts.c19 import Varpath, Names


class Node(Sym):
    """Whatever is at some place of a configuration."""
    def __init__(self, c, name):
        self.__dict__.update(c=c, name=name, kids={}, sect=z3.Bool(f'{name} is a section'))
    def has(self, k):
        """There is something of this name here."""
        return z3.Bool(f'{self.name} has {k}')
    def child(self, k):
        if k not in self.kids:
            self.kids[k] = Node(self.c, f'{self.name}/{k}')
        return self.kids[k]
    def _section(self):
        if not self.c.branch(self.sect):
            raise TypeError('not a section')
    def _key(self, k):
        if isinstance(k, Look) and k.kind == 'path':
            if self.c.branch(k.dotted):
                raise Unsupported('several names as one')
            return k.section
        if not isinstance(k, str) or not k:
            raise Unsupported(f'name {k!r}')
        return k
    def vc_contains(self, k):
        k = self._key(k)
        self._section()
        return SymBool(self.has(k))
    def __getitem__(self, k):
        k = self._key(k)
        self._section()
        if not self.c.branch(self.has(k)):
            raise KeyError(k)
        return self.child(k)
    vc_getitem = __getitem__
    def get(self, k, default=None):
        k = self._key(k)
        self._section()
        return self.child(k) if self.c.branch(self.has(k)) else default
    def vc_isinstance(self, t):
        ts = t if isinstance(t, tuple) else (t,)
        if dict in ts:
            return SymBool(self.sect)
        raise Unsupported(f'isinstance of a setting: {t}')
    def __getattr__(self, n):
        if n == EXPANDED and self.__dict__.get('expands'):
            self._section()
            return self.expand()
        raise Unsupported(f'setting.{n}')
    def expand(self):
        """cmdkit.Namespace: the value under the name, its variable or its command; error if there is none or several."""
        if not self.c.branch(self.defined()):
            raise AttributeError(EXPANDED)
        return None if self.c.branch(self.null()) else self.value()
    def defined(self): return z3.Bool(f'{self.name} defines {EXPANDED}')
    def null(self): return z3.Bool(f'{self.name}.{EXPANDED} has no value')
    def value(self): return self.child('<expanded>')
    def vc_is(self, o): return o is self
    def vc_len(self):
        self._section()
        n = z3.Int(f'{self.name} entries')
        self.c.assume(n >= 0)
        for k in ('section', 'subsection', EXPANDED):
            self.c.assume(z3.Implies(self.has(k), n >= 1))
        return mknum(n)
    def __bool__(self):
        if not self.c.branch(self.sect):
            return self.c.branch(z3.Bool(f'{self.name} is true'))
        return bool(self.vc_len() > 0)
    def __repr__(self): return f'<setting {self.name}>'


EXPANDED = 'variable'


class Look(Varpath):
    """The path asked for."""
    def __init__(self, c):
        super().__init__(c)
        self.section, self.variable = 'section', EXPANDED
        self.kind = ['everything', 'leading dot', 'path'][c.choose([(k, None) for k in ('everything', 'leading dot', 'path')], 'path')]
        if self.kind == 'path':
            self.deep = None
        self.bad = None
    def __eq__(self, o):
        if isinstance(o, str):
            if o == '.':
                return self.kind == 'everything'
            raise Unsupported('comparison of the path')
        return self is o
    def __ne__(self, o): return not self == o
    __hash__ = None
    def vc_eq(self, o): return self == o
    def startswith(self, p):
        if p != '.':
            raise Unsupported('start of the path')
        return self.kind != 'path'
    def vc_contains(self, k):
        if k != '.':
            raise Unsupported('search in the path')
        return True if self.kind != 'path' else SymBool(self.dotted)
    def split(self, sep=None, maxsplit=-1):
        if self.kind != 'path':
            raise Unsupported('names of ' + self.kind)
        return super().split(sep, maxsplit)
    def last(self):
        return self.variable if self.c.branch(self.dotted) else self.section
    def __str__(self): return '<path>'
    vc_str = __str__
    def __format__(self, spec): return '<path>'
    def chain(self, body, cells):
        """Any number of inner sections: one arbitrary of them, from an arbitrary section reached before it."""
        c = self.c
        at = [n for n in cells if isinstance(cells.get(n), Node)]
        if len(at) != 1:
            raise Unsupported('loop over the inner sections')
        n = at[0]
        start = cells.get(n)
        for v in cells:
            if v != n and cells.get(v) is not runtime.UNBOUND and not isinstance(cells.get(v), (str, SymStr)):
                raise Unsupported(f'loop variable {v}')
        known = not c.feasible(z3.Not(start.sect))
        self.first = start
        if c.choose([('all', None), ('one', None)], 'rule') == 0:
            for v in cells:
                if v != n and cells.get(v) is not runtime.UNBOUND:
                    cells.set(v, '<text>')
            self.deep = deep = Node(c, 'innermost')
            deep.__dict__['expands'] = start.__dict__.get('expands')
            c.assume(deep.sect if known else z3.BoolVal(True))
            cells.set(n, deep)
            return
        here = Node(c, 'reached')
        if known:
            c.assume(here.sect)
        cells.set(n, here)
        self.one = (here, 'subsection')
        if body('subsection') is not None:
            raise Unsupported('loop over the names left early')
        c.cover('inner section')
        c.prove('get: every inner name goes one level down, to exactly the section of that name', cells.get(n) is here.child('subsection'), repr(cells.get(n)))
        c.prove('get: only what is there is followed', z3.And(here.sect, here.has('subsection')))
        if known and c.feasible(z3.Not(here.child('subsection').sect)):
            raise Unsupported('no invariant known for this loop')
        raise PathEnd('arbitrary inner section')


def get_run(H):
    def body(c):
        c.env['flex'] = True
        shown = []
        sites = ['merged', 'default', 'system', 'user', 'local']
        site = sites[c.choose([(s, None) for s in sites], 'site')]
        there = c.choose([('missing', None), ('there', None)], 'file') == 1 if site in sites[2:] else True
        app = object.__new__(H.ConfigGetApp)
        w = app.varpath = Look(c)
        w.one = None
        app.site_name = None if site == 'merged' else site
        app.expand = c.choose([('plain', None), ('expand', None)], 'expand') == 1
        app.raw_mode = False
        app.print_output = lambda *a, **k: shown.append(bind(H.ConfigGetApp.print_output, a, k, skip_self=True)['value'])
        nodes = {s: Node(c, s) for s in sites}
        conf = nodes[site]
        for x in nodes.values():
            c.assume(x.sect)
            x.child('section').__dict__['expands'] = True
        files = {s: Module(config=f'<file of {s}>') for s in sites[2:]}
        loaded = []
        def load_file(f):
            loaded.append(f)
            return {f'<file of {s}>': nodes[s] for s in files}[f]
        def exists(f):
            if f != f'<file of {site}>':
                raise Unsupported(f'existence of {f}')
            return there
        dict_of_files = dict(files)
        with patched((H, 'full_config', nodes['merged']), (H, 'default_config', nodes['default']), (H, 'load_file', load_file), (H, 'path', dict_of_files), (H, 'os', Module(path=Module(exists=exists, isfile=exists)))):
            try:
                app.run()
                raised = None
            except H.ConfigurationError as e:
                raised = e
            except (TypeError, KeyError, AttributeError) as e:
                c.fail('get: what cannot be found is a configuration error', repr(e))
                return
        sec = conf.child('section')
        ok = []
        if not there or w.kind == 'leading dot':
            target, ok = None, [z3.BoolVal(False)]
        elif w.kind == 'everything':
            target = conf
        elif not c.branch(w.dotted):
            target, ok = sec, [conf.has('section')]
        else:
            ok = [conf.has('section'), sec.sect]
            last = sec
            if w.one is not None:
                here, k = w.one
                ok += [here.has(k), here.child(k).sect]
            elif w.deep is not None:
                last = w.deep
                ok += [last.sect]
            elif raised is None:
                c.prove('get: no inner name is left out', w.count == 2)
            elif c.feasible(w.count == 2):
                c.assume(w.count == 2)           # refused before any inner name was looked at: wrong for one path is wrong
            if w.one is None:
                ok += [last.defined(), z3.Not(last.null())] if app.expand else [last.has(EXPANDED)]
                target = last.value() if app.expand else last.child(EXPANDED)
            else:
                target = None
        if raised is not None:
            c.prove('get: refused only if there is no such setting', z3.Not(z3.And(*ok)) if ok else z3.BoolVal(False), str(raised))
            c.prove('get: nothing is printed then', not shown)
            c.cover('get refused')
            return
        c.prove('get: a missing setting is refused', z3.And(*ok) if ok else z3.BoolVal(True))
        c.prove('get: exactly the setting at the path is printed', len(shown) == 1 and shown[0] is target, f'{shown} for {target}')
        c.cover(f'get {w.kind}')
    return body


class Section(dict):
    """A section of any content."""
    __hash__ = None
    def _no(self, *a, **k): raise Unsupported('entries of an arbitrary section')
    items = keys = values = __iter__ = __len__ = __contains__ = vc_contains = get = __getitem__ = __setitem__ = __bool__ = update = _no
    def __eq__(self, o): return self is o
    def __repr__(self): return '<section>'


def output(H):
    """print_output and format_output."""
    def body(c):
        class Out:
            def __init__(self): self.lines, self.name = [], '<stdout>'
            def vc_print(self, args, kw):
                if set(kw) - {'file', 'flush'} or len(args) != 1 or kw.get('file', self) is not self:
                    raise Unsupported('print options')
                self.lines.append(args[0])
            def isatty(self): return tty
        out = Out()
        c.env['stdout'] = out
        tty = c.choose([('no terminal', None), ('terminal', None)], 'tty') == 1
        raw = c.choose([('formatted', None), ('raw', None)], 'raw') == 1
        kind = c.choose([(k, None) for k in ('text', 'number', 'section', 'list', 'null', 'yes')], 'value')
        v = [SymStr(z3.String('value')), SymInt(z3.Int('value')), Section(), [1, 'x'], None, True][kind]
        app = object.__new__(H.ConfigGetApp)
        app.raw_mode = raw
        app.varpath = 'some.path'
        doc = SymStr(z3.String('document'))
        js = SymStr(z3.String('json'))
        def section(x):
            c.prove('output: the section itself is formatted', x is v)
            return doc
        app.format_section = section
        class Json:
            @staticmethod
            def dumps(x, **k):
                if k:
                    raise Unsupported('json.dumps options')
                c.prove('output: the value itself is formatted', x is v)
                return js
        class Con:
            def __init__(self, *a, **k): pass
            def print(self, x): out.lines.append(x)
        with patched((H, 'json', Json), (H, 'Console', Con), (H, 'Syntax', lambda code, lexer, **k: code), (H, 'sys', Module(stdout=out)), (H, 'full_config', Module(console=Module(theme='theme')))):
            app.print_output(v)
        c.prove('output: one text is printed', len(out.lines) == 1)
        r = out.lines[0]
        if kind == 2:
            c.prove('output: a section as its document', r is doc)
        elif kind == 0 and (raw or not tty):
            c.prove('output: a text verbatim', exact(r, v))
        elif kind == 0:
            c.prove('output: a text as JSON or verbatim on the terminal', r is js or exact(r, v))
        else:
            c.prove('output: anything else as JSON', r is js)
        c.cover(f'output {kind}')
    return body


def section(H):
    """format_section: the section under its path; lines other than headings are not touched, headings only lose the quotes of the path."""
    def body(c):
        every = c.choose([('section', None), ('everything', None)], 'path') == 1
        app = object.__new__(H.ConfigGetApp)
        app.varpath = p = '.' if every else 'some.path'
        class Conf(dict):
            pass
        v = Conf(key='value')
        given = []
        lines = ['x = 1', 'text = "[\\"some.path\\"] \\"q\\""', '', '["some.path"]', '["some.path"."two words"]', '[["some.path".list]]', '[plain]', '[plain."x.some.path"]', 'last = "[]"', '"quoted key" = 1']
        def dumps(d, **k):
            if k:
                raise Unsupported('toml.dumps options')
            given.append(d)
            return '\n'.join(lines) + '\n'
        with patched((H, 'toml', Module(dumps=dumps))):
            r = app.format_section(v)
        c.prove('section: exactly the section is written', len(given) == 1 and given[0] == ({'key': 'value'} if every else {p: {'key': 'value'}}))
        # the library takes copies of special mappings for circular references
        c.prove('section: written from a plain dictionary', type(given[0]) is dict)
        want = [x if every or not x.startswith('[') else x.replace('["some.path"', '[some.path', 1) for x in lines]
        got = r.split('\n')
        c.prove('section: every line of the document is kept, headings without the quotes of the path', got == want, f'{got}')
        c.cover(f'section {every}')
    return body


def which(H):
    def body(c):
        class Out:
            def __init__(self): self.lines = []
            def vc_print(self, args, kw):
                if set(kw) - {'file', 'flush'} or len(args) != 1:
                    raise Unsupported('print options')
                self.lines.append(args[0])
        out = Out()
        c.env['stdout'] = out
        stack = [out]
        log = []
        sites = ['<none>', 'default', 'preload', 'system', 'user', 'local', 'env']
        site = sites[c.choose([(s, None) for s in sites], 'site')]
        only = c.choose([('full', None), ('site only', None)], 'only') == 1
        how = c.choose([('KeyError', None), ('TypeError', None)], 'missing') if site == '<none>' else 0
        path_text = 'submit.bundlesize.x'
        class Full:
            @staticmethod
            def which(*p):
                log.append(p)
                if site == '<none>':
                    raise (KeyError, TypeError)[how]('missing')
                return site
            namespaces = Module(env=Module(to_env=lambda: Module(flatten=lambda prefix=None: {'HYPERSHELL_OTHER': '1', 'HYPERSHELL_SUBMIT_BUNDLESIZE_X_Y': '2', 'HYPERSHELL_ZZ': '3'})))
        value, default = SymStr(z3.String('value')), SymStr(z3.String('default'))
        gone = {k: c.choose([('set', None), ('not set', None)], k) == 1 for k in ('value', 'default')}
        asked = []
        class Buffer(Out):
            def getvalue(self):
                if len(self.lines) != 1:
                    raise Unsupported('captured output')
                return Captured(self.lines[0])
        class Captured:
            """A printed text and the line break; without surrounding blanks the text."""
            def __init__(self, t): self.t = t
            def strip(self, *a): return self.t if not a else Unsupported('strip')
        class Redirect:
            def __init__(self, b): self.b = b
            def __enter__(self):
                stack.append(self.b)
                c.env['stdout'] = self.b
                return self.b
            def __exit__(self, *a):
                stack.pop()
                c.env['stdout'] = stack[-1]
        class Get:
            @classmethod
            def from_cmdline(cls, argv):
                asked.append(list(argv))
                argv = list(argv)
                if argv.count(path_text) != 1 or set(argv) - {path_text, '--raw', '-r', '--default'}:
                    c.fail('which: the setting itself is looked up', f'{argv}')
                me = cls()
                me.which = 'default' if '--default' in argv else 'value'
                me.raw = '--raw' in argv or '-r' in argv
                return me
            def __enter__(self): return self
            def __exit__(self, *a): pass
            def run(self):
                if gone[self.which]:
                    raise H.ConfigurationError('missing')
                stack[-1].vc_print([value if self.which == 'value' else default], {})
        app = object.__new__(H.ConfigWhichApp)
        app.varpath, app.site_only = path_text, only
        files = {s: Module(config=f'<file of {s}>') for s in ('system', 'user', 'local')}
        with patched((H, 'full_config', Full), (H, 'ConfigGetApp', Get), (H, 'contextlib', Module(redirect_stdout=Redirect)), (H, 'io', Module(StringIO=Buffer)), (H, 'path', files), (H, 'log', NullLog())):
            app.run()
        c.prove('which: the path is looked up name by name', log == [('submit', 'bundlesize', 'x')], f'{log}')
        if site == '<none>':
            c.prove('which: nothing is claimed about a setting that is not there', not out.lines)
            c.cover('which missing')
            return
        c.prove('which: one line', len(out.lines) == 1, f'{out.lines}')
        r = out.lines[0]
        if only:
            c.prove('which: the source only', exact(r, site), f'{r}')
            c.cover('which site')
            return
        def short(x, k):
            if gone[k]:
                return 'null', False
            b = c.branch(z3.Contains(x.z, '['), f'{k} has a bracket')
            return ('[...]' if b else x), b
        (v, long), (d, _) = short(value, 'value'), short(default, 'default')
        if site in ('default', 'preload'):
            want = [concat([v, f' ({site})'])]
        elif site == 'env':
            want = [concat([v, f' (env: {n} | default: ', d, ')']) for n in (['HYPERSHELL_SUBMIT_BUNDLESIZE_X_Y'] if long else ['HYPERSHELL_SUBMIT_BUNDLESIZE_X'])]
        else:
            want = [concat([v, f' ({site}: <file of {site}> | default: ', d, ')'])]
        c.prove('which: the value in effect, its source and the default', z3.Or(*[zb(veq(r, x)) for x in want]), f'{r} {want}')
        c.cover(f'which {site}')
    return body


def zb(x):
    return x.z if isinstance(x, SymBool) else x if z3.is_expr(x) else z3.BoolVal(bool(x))


def arguments(H):
    def body(c):
        acts = H.ConfigGetApp.interface._actions
        sites = {o: a.const for a in acts if a.dest == 'site_name' for o in a.option_strings}
        c.prove('get: options of the sites', sites == {'--system': 'system', '--user': 'user', '--local': 'local', '--default': 'default'} and H.ConfigGetApp.site_name is None, str(sites))
        flags = {o: a.dest for a in acts if a.dest in ('expand', 'raw_mode') for o in a.option_strings}
        c.prove('get: options', flags == {'-x': 'expand', '--expand': 'expand', '-r': 'raw_mode', '--raw': 'raw_mode'} and H.ConfigGetApp.expand is False and H.ConfigGetApp.raw_mode is False, str(flags))
        w = {o: a.dest for a in H.ConfigWhichApp.interface._actions if a.dest == 'site_only' for o in a.option_strings}
        c.prove('which: options', w == {'--site': 'site_only'} and H.ConfigWhichApp.site_only is False, str(w))
        p = [a for A in (H.ConfigGetApp, H.ConfigWhichApp) for a in A.interface._actions if a.dest == 'varpath']
        c.prove('path argument: as given', len(p) == 2 and all(a.type is None for a in p))
    return body


def run(rep):
    H = mod('config')
    rep.run('ConfigGetApp.run', get_run(H), covers=['inner section', 'get refused', 'get everything', 'get path'])
    rep.run('ConfigGetApp.print_output', output(H), covers=[f'output {i}' for i in range(6)])
    rep.run('ConfigGetApp.format_section', section(H), covers=['section True', 'section False'])
    rep.run('ConfigWhichApp.run', which(H), covers=['which missing', 'which site', 'which default', 'which preload', 'which system', 'which user', 'which local', 'which env'])
    rep.run('ConfigGetApp.interface', arguments(H))
