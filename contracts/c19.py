"""C19: settings.
  value            the value argument of `config set` is the typed value of its text
  ConfigSetApp.run the nested mapping given to update() denotes exactly the option path and value: loop rule over an
                   arbitrary number of inner sections
  update           the file afterwards denotes  merge(file before, change)  for every previous content and every change, or an
                   exception leaves it as it was; texts, settings and files are uninterpreted, the TOML library is its contract
                   (dumps then parse is the identity on plain data; a document altered in place has any content)
  reload_file, partial_load / partial_reload, build_preloads, build_configuration, load, reload, reload_local
                   every source is read from its own file and layered in the order of precedence, per option (the layering of
                   cmdkit.Configuration and the merging of cmdkit.Namespace are assumed contracts)"""
import os as _os
import tomllib
from pyvc.models import *
from pyvc.core import z3, EngineStop
from pyvc.values import uf, zstr, mkstr, SymDict, LOWER, veq
from pyvc import runtime
from contracts.textspec import typed, S

CONF = z3.DeclareSort('Settings')
EMPTY = z3.Const('no settings', CONF)
VALID, PARSE, DUMPS = uf('valid_toml', S, z3.BoolSort()), uf('parsed', S, CONF), uf('dumped', CONF, S)
MERGE = uf('merged', CONF, CONF, CONF)
NORM, UNNORM = uf('normal_form', CONF, S), uf('of_normal_form', S, CONF)
DECODES, ENCODES = uf('is_utf8', S, z3.BoolSort()), uf('encodable', S, z3.BoolSort())
DIRNAME, JOIN = uf('dirname', S, S), uf('join', S, S, S)


# ----------------------------------------------------------------------------------------------- config set

class Chain:
    """Marker: any number (at least one) of further levels, one per inner section, in order, each holding only the next."""
    def __repr__(self): return '<inner sections>'
    def __hash__(self): return id(self)
    def __eq__(self, o): return self is o
    def vc_eq(self, o): return self is o


class Names:
    """The names of a dotted path from position lo up to hi names before its end (lo, hi in {0, 1})."""
    def __init__(self, w, lo=0, hi=0):
        self.w, self.lo, self.hi = w, lo, hi
    def vc_len(self):
        n = self.w.count - self.lo - self.hi
        return SymInt(z3.If(n < 0, 0, n))
    def vc_unpack(self, before, after):
        if before + after > 2 or before > 1 or after > 1 or self.lo or self.hi:
            raise Unsupported('unpacking of the names')
        if before + after == 2 and not self.w.c.branch(self.w.dotted):
            raise ValueError('not enough values to unpack')
        return (*([self.w.section] if before else []), Names(self.w, before, after), *([self.w.last()] if after else []))
    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step is None and k.start in (None, 0, 1) and k.stop in (None, -1) and (self.lo, self.hi) == (0, 0):
                return Names(self.w, k.start or 0, 1 if k.stop else 0)
            raise Unsupported('slice of the names')
        if k == 0 and self.lo == 0:
            return self.w.section
        if k == -1 and self.hi == 0:
            return self.w.last()
        raise Unsupported('name by position')
    vc_getitem = __getitem__
    def __iter__(self): raise Unsupported('native iteration over the names')
    def vc_for(self, body):
        c = self.w.c
        if self.lo == 0:
            self.once(body, self.w.section)
        cells = runtime.Cells(body)
        if c.choose([('no inner section', None), ('inner sections', None)], 'inner sections') == 1:
            c.assume(self.w.count > 2)
            self.w.chain(body, cells)
        else:
            c.assume(self.w.count <= 2)
        if self.hi == 0 and c.branch(self.w.dotted):
            self.once(body, self.w.variable)
        return None
    def once(self, body, name):
        r = body(name)
        if r is not None:
            raise Unsupported('loop over the names left early')


class Varpath:
    def __init__(self, c):
        self.c = c
        self.dotted = z3.Bool('dotted')
        self.count = z3.Int('number of names')
        c.assume(self.count >= 1)
        c.assume(self.dotted == (self.count >= 2))
        self.section, self.variable = mkval('str', 'section'), mkval('str', 'variable')
    def last(self):
        return self.variable if self.c.branch(self.dotted) else self.section
    def chain(self, body, cells):
        c = self.c
        inner = [n for n in cells if isinstance(cells.get(n), SymDict)]
        if len(inner) != 1 or cells.get(inner[0]):
            raise Unsupported('loop over the inner sections')
        before = {n: cells.get(n) for n in cells}
        n = inner[0]
        if c.choose([('all', None), ('one', None)], 'rule') == 0:
            # by the rule below, for as many sections as there are
            d = SymDict()
            before[n][Chain()] = d
            cells.set(n, d)
            for v in cells:
                if v != n:
                    cells.set(v, Opaque('after the loop'))
            return
        # arbitrary section: the innermost level reached so far is a fresh one
        d = SymDict()
        cells.set(n, d)
        sub = mkval('str', 'subsection')
        for v in cells:
            if v != n and cells.get(v) is not runtime.UNBOUND and not isinstance(cells.get(v), (str, SymStr)):
                raise Unsupported(f'loop variable {v}')
        if body(sub) is not None:
            raise Unsupported('loop over the names left early')
        c.cover('inner section')
        items = d.items()
        new = cells.get(n)
        c.prove('config set: every inner section becomes one level of the change', len(items) == 1 and isinstance(items[0][1], SymDict) and not items[0][1] and items[0][1] is not d, f'{d!r}')
        c.prove('config set: the level has the name of the inner section', exact(items[0][0], sub), f'{d!r}')
        c.prove('config set: the next name goes below it', new is items[0][1], repr(new))
        raise PathEnd('arbitrary inner section')
    def vc_contains(self, k):
        if k == '.':
            return SymBool(self.dotted)
        raise Unsupported('search in the path')
    def count_(self, k): raise Unsupported('count')
    def split(self, sep=None, maxsplit=-1):
        if sep != '.' or maxsplit != -1:
            raise Unsupported('split of the path')
        return Names(self)
    def __getattr__(self, n):
        raise Unsupported(f'path.{n}')


def config_set(H):
    def body(c):
        c.env['flex'] = True
        calls = []
        app = H.ConfigSetApp.__new__(H.ConfigSetApp)
        w = app.varpath = Varpath(c)
        app.value = mkval('str', 'value')
        app.site_name = ('user', 'system', 'local')[c.choose([(k, None) for k in ('user', 'system', 'local')], 'site')]
        def update(*a, **k):
            calls.append(bind(H.update.__wrapped__ if hasattr(H.update, '__wrapped__') else real, a, k))
        real = H.update
        with patched((H, 'update', update)):
            try:
                app.run()
            except H.ArgumentError:
                c.prove('config set: only a path without section is rejected', z3.Not(w.dotted))
                c.cover('rejected')
                c.prove('config set: nothing is changed by a rejected command', not calls)
                return
        c.cover('set')
        c.prove('config set: a path without section is rejected', w.dotted)
        c.prove('config set: one update', len(calls) == 1, str(len(calls)))
        a = calls[0]
        c.prove('config set: the site given is updated', exact(a['scope'], app.site_name), repr(a))
        d = a['partial']
        one = lambda m: isinstance(m, dict) and len(m) == 1
        c.prove('config set: the change has one section', one(d), repr(d))
        k, d = list(d.items())[0]
        c.prove('config set: the section named first', exact(k, w.section), repr(k))
        c.prove('config set: one entry in the section', one(d), repr(d))
        k, v = list(d.items())[0]
        if isinstance(k, Chain):
            c.cover('below inner sections')
            c.prove('config set: inner sections are levels of the change', c.feasible(w.count > 2))
            c.prove('config set: one entry in the innermost section', one(v), repr(v))
            k, v = list(v.items())[0]
        else:
            c.prove('config set: a section for every inner name', w.count == 2)
        c.prove('config set: the option named last', exact(k, w.variable), repr(k))
        c.prove('config set: with the value given', exact(v, app.value), repr(v))
    return body


def arguments(H):
    """The command line parser gives the typed value of the text to run()."""
    def body(c):
        acts = {a.dest: a for a in H.ConfigSetApp.interface._actions}
        v = mkval('str', 'text')
        t = acts['value'].type or (lambda x: x)
        try:
            r = t(v)
        except Exception as e:
            c.fail('value argument: every text has a value', repr(e))
            return
        c.cover(type(r).__name__)
        c.prove('value argument: boolean, number, null or the text itself', typed(v.z, r), repr(r))
        c.prove('path argument: as given', acts['varpath'].type is None and not acts['varpath'].nargs and not acts['value'].nargs)
        sites = {o: a.const for a in H.ConfigSetApp.interface._actions if a.dest == 'site_name' for o in a.option_strings}
        c.prove('site options', sites == {'--user': 'user', '--system': 'system', '--local': 'local'} and H.ConfigSetApp.site_name == 'user', str(sites))
    return body


# ------------------------------------------------------------------------------------------------ files

class Plain(dict):
    """Plain settings (a dictionary of plain values) of any content."""
    def __init__(self, z):
        super().__init__()
        self.z = z
    def copy(self): return type(self)(self.z)
    def __deepcopy__(self, memo): return type(self)(self.z)
    def __eq__(self, o): return SymBool(self.z == o.z) if isinstance(o, Plain) else False
    def __ne__(self, o): return SymBool(self.z != o.z) if isinstance(o, Plain) else True
    __hash__ = None
    def _no(self, *a, **k): raise Unsupported('entries of arbitrary settings')
    items = keys = values = __iter__ = __len__ = __contains__ = vc_contains = get = __getitem__ = __setitem__ = pop = setdefault = __bool__ = __or__ = _no
    def update(self, *a, **k): raise Unsupported('dict.update')
    def __repr__(self): return f'<settings {self.z}>'


class NS(Plain):
    """cmdkit.Namespace: assumed contract: update() merges per option."""
    def update(self, o, **k):
        if k or not isinstance(o, Plain):
            raise Unsupported('Namespace.update')
        self.z = MERGE(self.z, o.z)
    def to_dict(self): return Plain(self.z)


def namespace(o=(), **k):
    if isinstance(o, Plain) and not k:
        return NS(o.z)
    if not o and not k:
        return NS(EMPTY)
    raise Unsupported('Namespace of other data')


class Doc(Plain):
    """A TOML document; altered in place it may have any content."""
    mutated = False
    def unwrap(self):
        if self.mutated:
            self.w.count += 1
            return Plain(z3.Const(f'altered document {self.w.count}', CONF))
        return Plain(self.z)
    def as_string(self): return self.w.dumps(self)
    def update(self, *a, **k): self.mutated = True
    def __setitem__(self, k, v): self.mutated = True


class Toml:
    """Contract of tomlkit."""
    def __init__(self, w, real):
        self.w, self.exceptions = w, real.exceptions
        self.loads = self.parse
    def parse(self, text):
        w, z = self.w, zstr(text)
        if z is None:
            raise Unsupported('parse of something else')
        w.text(text)
        if not w.c.branch(VALID(z)):
            w.broken = True
            raise self.exceptions.ParseError(1, 1)
        d = Doc(PARSE(z))
        d.w = w
        return d
    def dumps(self, m, sort_keys=False): return self.w.dumps(m)
    def document(self):
        d = Doc(EMPTY)
        d.w = self.w
        return d
    def __getattr__(self, n):
        raise Unsupported(f'tomlkit.{n}')


class Files:
    def __init__(self, c, real):
        self.c, self.count = c, 0
        self.broken = False                          # something outside the program failed
        self.config = mkval('str', 'config path')
        self.existed = c.choose([('new file', None), ('existing file', None)], 'file') == 1
        self.old = mkval('str', 'old content')
        self.files = [(self.config, self.old)] if self.existed else []
        c.assume(z3.And(DECODES(zstr('')), VALID(zstr('')), PARSE(zstr('')) == EMPTY))
        c.assume(z3.Length(self.config.z) > 0)
        self.made = False
    def encode(self, t, encoding='utf-8', *a):
        if not self.c.branch(ENCODES(t.z)):
            self.broken = True
            raise UnicodeEncodeError('utf-8', '\udcff', 0, 1, 'surrogates not allowed')
    def text(self, t):
        """Facts about constant texts."""
        if isinstance(t, str) and not isinstance(t, SymStr):
            try:
                v = tomllib.loads(t)
                self.c.assume(z3.And(VALID(zstr(t))))
                if v == {}:
                    self.c.assume(PARSE(zstr(t)) == EMPTY)
            except tomllib.TOMLDecodeError:
                self.c.assume(z3.Not(VALID(zstr(t))))
            self.c.assume(z3.And(ENCODES(zstr(t)), DECODES(zstr(t))))
    def dumps(self, m):
        if not isinstance(m, Plain):
            raise Unsupported('dumps')
        if isinstance(m, Doc) and m.mutated:
            if self.c.choose([('text', None), ('error', None)], 'dump of an altered document') == 1:
                raise self.tk.TOMLKitError()
            self.count += 1
            return mkval('str', f'altered text {self.count}')
        if not isinstance(m, Doc):
            if self.c.choose([('text', None), ('not representable', None)], 'dumps') == 1:
                self.broken = True
                raise ValueError('not representable')
        t = DUMPS(m.z)
        self.c.assume(z3.And(VALID(t), PARSE(t) == m.z))
        return SymStr(t)
    def find(self, p):
        z = zstr(p)
        if z is None:
            raise Unsupported('path of a file')
        for i, (q, _) in enumerate(self.files):
            if zstr(q).eq(z):
                return i
        if z.eq(self.config.z) or z.decl().eq(JOIN) or z.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            return None                              # another file beside it (its name is assumed to be different)
        raise Unsupported('another file')
    def fail(self, what):
        if self.c.choose([('ok', None), ('error', None)], what) == 1:
            self.broken = True
            raise OSError(what)
    def exists(self, p): return self.find(p) is not None
    def makedirs(self, d, mode=0o777, exist_ok=False):
        if isinstance(d, str) and d == '.':
            if not exist_ok:
                raise FileExistsError(d)
            self.made = True
            return
        z = zstr(d)
        if not z.eq(DIRNAME(self.config.z)):
            raise Unsupported('other directory')
        if self.c.branch(z == ''):
            raise FileNotFoundError('')
        if not exist_ok and self.existed:
            raise FileExistsError('exists')
        self.fail('makedirs')
        self.made = True
    def copy(self, a, b, **k):
        self.fail('copy')
        i = self.find(a)
        if i is None:
            raise FileNotFoundError(a)
        self.put(b, self.files[i][1])
        return b
    def put(self, p, t):
        i = self.find(p)
        if i is None:
            self.files.append((p, t))
        else:
            self.files[i] = (p, t)
    def replace(self, a, b):
        self.fail('replace')
        i = self.find(a)
        if i is None:
            raise FileNotFoundError(a)
        t = self.files.pop(i)[1]
        self.put(b, t)
    def remove(self, p):
        i = self.find(p)
        if i is None:
            raise FileNotFoundError(p)
        self.files.pop(i)
    def open(self, p, mode='r', encoding=None, **k):
        return Handle(self, p, mode, encoding)


class Handle:
    def __init__(self, w, p, mode, encoding):
        self.w, self.p, self.mode, self.encoding = w, p, mode, encoding
        if k_bad(mode):
            raise Unsupported(f'open mode {mode}')
        w.fail('open')
        if 'r' in mode:
            if w.find(p) is None:
                raise FileNotFoundError(p)
        else:
            if not w.existed and zstr(p).eq(w.config.z) and not w.made:
                w.c.fail('update: the directory of a new file is created first')
            w.put(p, '')
    def __enter__(self): return self
    def __exit__(self, *a): return None
    def close(self): pass
    def flush(self): pass
    def read(self):
        w = self.w
        t = w.files[w.find(self.p)][1]
        if not isinstance(t, SymStr):
            return t
        w.count += 1
        if self.encoding is None or str(self.encoding).lower().replace('-', '') != 'utf8':
            return mkval('str', f'otherwise decoded {w.count}')
        if not w.c.branch(DECODES(t.z)):
            w.broken = True
            raise UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'invalid')
        return t
    def write(self, t):
        w = self.w
        if self.w.files[w.find(self.p)][1] != '':
            raise Unsupported('several writes')
        w.text(t)
        if isinstance(t, SymStr):
            if self.encoding is None or str(self.encoding).lower().replace('-', '') != 'utf8':
                w.count += 1
                t = mkval('str', f'otherwise encoded {w.count}')
            elif not w.c.branch(ENCODES(t.z)):
                w.broken = True
                raise UnicodeEncodeError('utf-8', '\udcff', 0, 1, 'surrogates not allowed')
        w.put(self.p, t)
        return 1
    def writelines(self, ts):
        ts = list(ts)
        if len(ts) != 1:
            raise Unsupported('several writes')
        self.write(ts[0])


def k_bad(mode):
    return mode not in ('r', 'w', 'rt', 'wt')


class OsPath:
    def __init__(self, w): self.w = w
    def dirname(self, p):
        if not zstr(p).eq(self.w.config.z):
            raise Unsupported('dirname')
        return SymStr(DIRNAME(zstr(p)))
    def join(self, a, *b):
        z = zstr(a)
        for x in b:
            z = JOIN(z, zstr(x))
        return SymStr(z)
    def exists(self, p): return self.w.exists(p)
    isfile = exists
    def __getattr__(self, n): raise Unsupported(f'os.path.{n}')


class Os:
    def __init__(self, w):
        self.path, self.makedirs, self.replace, self.rename, self.remove, self.unlink = OsPath(w), w.makedirs, w.replace, w.replace, w.remove, w.remove
        self.environ, self.name = _os.environ, _os.name
    def getpid(self): return 4711
    def __getattr__(self, n): raise Unsupported(f'os.{n}')


class Shutil:
    def __init__(self, w): self.w, self.copy, self.copy2, self.copyfile, self.move = w, w.copy, w.copy, w.copy, w.replace
    def copystat(self, a, b, **k): self.w.fail('copystat')
    copymode = copystat
    def __getattr__(self, n): raise Unsupported(f'shutil.{n}')


class Now:
    def now(self, *a): return self
    def strftime(self, f): return mkval('str', 'timestamp')
    def __getattr__(self, n): raise Unsupported(f'datetime.{n}')


class Json:
    def __init__(self, w): self.w = w
    def dumps(self, m, sort_keys=False, default=None, **k):
        if not isinstance(m, Plain) or not sort_keys or isinstance(m, Doc):
            raise Unsupported('json.dumps')
        z = NORM(m.z)
        self.w.c.assume(UNNORM(z) == m.z)
        return SymStr(z)
    def __getattr__(self, n): raise Unsupported(f'json.{n}')


class Sites:
    """hypershell.core.platform.path: one configuration file per site."""
    def __init__(self, w, scope): self.w, self.scope = w, scope
    def __getitem__(self, k):
        if not exact(k, self.scope):
            self.w.c.fail('update: the file of the site given', repr(k))
        return self
    get = vc_getitem = __getitem__
    def __getattr__(self, n):
        if n == self.scope:
            return self
        if n == 'config':
            return self.w.config
        raise Unsupported(f'path.{n}')


def update(M):
    tk = M.tomlkit
    def body(c):
        w = Files(c, tk)
        w.tk = tk.exceptions
        partial = Plain(z3.Const('change', CONF))
        scope = ('user', 'system', 'local')[c.choose([(k, None) for k in ('user', 'system', 'local')], 'site')]
        def inplace(original, change, *a, **k):
            if not isinstance(original, Doc):
                if isinstance(original, NS):
                    raise Unsupported('in place change of a namespace')
                raise Unsupported('in place change')
            original.mutated = True
            k = c.choose([('altered', None), ('error', None), ('not representable', None)], 'alter in place')
            if k == 1:
                raise tk.exceptions.TOMLKitError()
            if k == 2:
                w.broken = True
                raise ValueError('not representable')
            return original
        c.env['open'], c.env['encode'] = w.open, w.encode
        stubs = [(M, 'tomlkit', Toml(w, tk)), (M, 'os', Os(w)), (M, 'shutil', Shutil(w)), (M, 'datetime', Now()), (M, 'json', Json(w)), (M, 'Namespace', namespace), (M, 'path', Sites(w, scope)), (M, 'log', NullLog())]
        if hasattr(M, '_inplace_update'):
            stubs.append((M, '_inplace_update', inplace))
        before = PARSE(w.old.z) if w.existed else EMPTY
        with patched(*stubs):
            try:
                M.update(scope, partial)
            except Exception as e:
                c.cover('failed')
                c.prove('update: fails only if the files, the old content or the value cannot be handled', w.broken, f'{type(e).__name__}: {e}')
                i = w.find(w.config)
                if w.existed:
                    c.prove('update: a failure leaves the file as it was', i is not None and exact(w.files[i][1], w.old), repr(e))
                elif i is not None:
                    z = zstr(w.files[i][1])
                    c.prove('update: a failure leaves a new file without settings', z3.And(VALID(z), PARSE(z) == EMPTY), repr(e))
                return
        i = w.find(w.config)
        c.cover('existing file' if w.existed else 'new file')
        c.prove('update: the file exists', i is not None)
        z = zstr(w.files[i][1])
        c.prove('update: the file can be read', VALID(z))
        c.prove('update: the file has its previous settings with the change', PARSE(z) == MERGE(before, partial.z))
    return body


# ---------------------------------------------------------------------------------------------- sources

def reload_file(M):
    tk = M.tomlkit
    def body(c):
        w = Files(c, tk)
        w.tk = tk.exceptions
        c.env['open'] = w.open
        with patched((M, 'tomlkit', Toml(w, tk)), (M, 'os', Os(w)), (M, 'Namespace', namespace)):
            try:
                r = M.reload_file(w.config)
            except M.ConfigurationError:
                c.cover('error')
                c.prove('reload_file: only an unreadable file is an error', w.broken)
                return
            except EngineStop:
                raise
            except Exception as e:
                c.fail('reload_file: an unreadable file is a configuration error', repr(e))
                return
        c.prove('reload_file: an unreadable file is reported', not w.broken)
        c.prove('reload_file: settings', isinstance(r, NS), repr(r))
        c.cover('existing file' if w.existed else 'no file')
        c.prove('reload_file: the settings of the file', r.z == (PARSE(w.old.z) if w.existed else EMPTY))
    return body


def load_file(M):
    """The cached reader: the settings of that file (read once)."""
    def body(c):
        ns = Opaque('settings of the file')
        got = []
        with patched((M, 'reload_file', lambda *a, **k: got.append((a, k)) or ns)):
            real = getattr(M.load_file, '__wrapped__', M.load_file)
            p = mkval('str', 'path')
            r = real(p)
            c.prove('load_file: reads the file given', len(got) == 1 and got[0][1] == {} and exact(got[0][0][0], p))
            c.prove('load_file: returns its settings', r is ns)
        env = Opaque('environment')
        with patched((M, 'reload_env', lambda: env)):
            real = getattr(M.load_env, '__wrapped__', M.load_env)
            c.prove('load_env: the environment', real() is env)
        class Env:
            def __init__(self, *a, **k): self.args = (a, k)
            def expand(self, *a, **k): return (self, a, k)
        with patched((M, 'Environ', Env)):
            e, a, k = M.reload_env()
            pre = e.args[0][0] if e.args[0] else e.args[1].get('prefix')
            c.prove('reload_env: variables of this program, each a path of sections', pre == 'HYPERSHELL' and a == () and k == {}, str((e.args, a, k)))
    return body


def layers(M, fname, loader, env):
    def body(c):
        read, made = [], []
        kind = lambda s: ('given', 'none', 'empty', 'default')[c.choose([(k, None) for k in ('given', 'none', 'empty', 'default')], s)]
        sites = {s: kind(s) for s in ('system', 'user', 'local')}
        given = {'given': lambda s: mkval('str', f'{s} file'), 'none': lambda s: None, 'empty': lambda s: '', 'default': lambda s: None}
        args = {s: given[k](s) for s, k in sites.items() if k != 'default'}
        for s, k in sites.items():
            if k == 'given':
                c.assume(z3.Length(args[s].z) > 0)
        pre = c.choose([('no preload', None), ('preload', None)], 'preload') == 1
        preload = Opaque('preload')
        e = Opaque('environment')
        class File(Opaque): pass
        def reader(p):
            f = Opaque(f'settings {len(read)}')
            read.append((p, f))
            return f
        def configuration(*a, **layers):
            if a:
                raise Unsupported('Configuration')
            made.append(list(layers.items()))
            return Opaque('configuration')
        with patched((M, loader, reader), (M, env, lambda: e), (M, 'Configuration', configuration)):
            r = getattr(M, fname)(**args, **({'preload': preload} if pre else {}))
        c.cover('preload' if pre else 'no preload')
        c.prove(f'{fname}: one configuration', len(made) == 1)
        names = [n for n, _ in made[0]]
        want = ['default'] + ['preload'] * pre + ['system', 'user', 'local', 'env']
        c.prove(f'{fname}: every source, from the least to the most specific', names == want, str(names))
        d = dict(made[0])
        c.prove(f'{fname}: the built-in defaults', d['default'] is M.default)
        c.prove(f'{fname}: the environment', d['env'] is e)
        if pre:
            c.prove(f'{fname}: the preloads', d['preload'] is preload)
        for s, k in sites.items():
            if k in ('none', 'empty'):
                v = d[s]
                c.prove(f'{fname}: a source left out has no settings', isinstance(v, dict) and not v, f'{s}: {v!r}')
            else:
                p = [q for q, f in read if f is d[s]]
                c.prove(f'{fname}: a source is a file', len(p) == 1, s)
                want = args[s] if k == 'given' else getattr(M.path, s).config
                c.prove(f'{fname}: the source is its own file', exact(p[0], want), f'{s}: {p[0]!r}')
    return body


def style(M):
    def body(c):
        v = mkval('str', 'style') if c.choose([('text', None), ('other', None)], 'style') == 0 else mkval('int', 'style')
        class Logging: pass
        class Base:
            logging = Logging()
            def which(self, *a): return 'default'
        Base.logging.style = v
        got = []
        ns = lambda *a, **k: got.append((a, k)) or Opaque('namespace')
        with patched((M, 'Namespace', ns)):
            try:
                M.build_preloads(Base())
            except M.ConfigurationError:
                c.cover('rejected')
                known = False if zstr(v) is None else z3.Or(*[LOWER(v.z) == s for s in M.LOGGING_STYLES])
                c.prove('logging style: only unknown styles are rejected', z3.Not(core.as_z3_bool2(known)))
                return
        c.cover('known')
        c.prove('preload: one namespace', len(got) == 1 and not got[0][1])
        d = got[0][0][0]
        c.prove('preload: the logging section', list(d) == ['logging'], repr(d))
        c.prove('preload: the settings of the style named', z3.Or(*[z3.And(LOWER(v.z) == s, core.as_z3_bool2(d['logging'] == M.LOGGING_STYLES[s])) for s in M.LOGGING_STYLES]) if zstr(v) is not None else False, repr(d))
    return body


def build(M):
    def body(c):
        calls = []
        def loader(*a, **k):
            calls.append((a, k, Opaque(f'configuration {len(calls)}')))
            return calls[-1][2]
        pre = Opaque('preloads')
        bases = []
        with patched((M, 'build_preloads', lambda *a, **k: bases.append(bind(lambda base: None, a, k)['base']) or pre)):
            r = M.build_configuration(loader)
        c.prove('build_configuration: defaults follow from the configuration itself', len(bases) == 1 and bases[0] in [x[2] for x in calls])
        b = [x for x in calls if x[2] is bases[0]][0]
        c.prove('build_configuration: the logging style is that of all sources', b[0] == () and b[1] == {})
        f = [x for x in calls if x[2] is r]
        c.prove('build_configuration: the final configuration', len(f) == 1 and f[0][0] == () and list(f[0][1]) == ['preload'] and f[0][1]['preload'] is pre, repr(calls))
        for name, want in (('load', 'partial_load'), ('reload', 'partial_reload')):
            got = []
            result = Opaque('result')
            with patched((M, 'build_configuration', lambda *a, **k: got.append(bind(lambda loader: None, a, k)['loader']) or result)):
                r = getattr(M, name)()
            c.prove(f'{name}: from all sources', len(got) == 1 and got[0] is getattr(M, want) and r is result, repr(got))
        # only one file
        p = mkval('str', 'file')
        got, made = [], []
        result = Opaque('result')
        with patched((M, 'build_configuration', lambda *a, **k: got.append(bind(lambda loader: None, a, k)['loader']) or result),
                     (M, 'partial_reload', lambda *a, **k: made.append((a, k)) or Opaque('c'))):
            r = M.reload_local(p)
            c.prove('reload_local: one configuration', len(got) == 1 and r is result)
            for kw in ({}, {'preload': pre}):
                got[0](**kw)
                a = made[-1]
                c.prove('reload_local: only the file given', a[0] == () and set(a[1]) == {'system', 'user', 'local', *kw} and not a[1]['system'] and not a[1]['user'] and exact(a[1]['local'], p)
                        and all(a[1][k] is v for k, v in kw.items()), repr(a))
        c.cover('one file')
    return body


def edit(H):
    def body(c):
        """`config edit` opens exactly the file of the source asked for, in the editor chosen."""
        site = ['system', 'user', 'local'][c.choose([('system', None), ('user', None), ('local', None)], 'source')]
        texts = {k: None if c.choose([('unset', None), ('set', None)], k) == 0 else SymStr(z3.String(k)) for k in ('EDITOR', 'VISUAL')}
        log = []
        path = Module(dirname=lambda p: ('dir of', p))
        class Path(dict):
            __getattr__ = dict.__getitem__
        files = Path({k: Module(config=f'/{k}/config.toml') for k in ('system', 'user', 'local')})
        os_ = Module(getenv=lambda n, d=None: texts[n] if texts.get(n) is not None else d, makedirs=lambda p, exist_ok=False: log.append(('make', p, exist_ok)), path=path,
                    environ={k: v for k, v in texts.items() if v is not None})
        app = object.__new__(H.ConfigEditApp)
        app.__dict__.update(site_name=site)
        err = None
        with patched((H, 'os', os_), (H, 'path', files), (H, 'subprocess', Module(run=lambda *a, **k: log.append(('run', a, k))))):
            try:
                app.run()
            except RuntimeError as e:
                err = e
        want = texts['EDITOR'] if texts['EDITOR'] is not None else texts['VISUAL']
        none = want is None or c.branch(want.z == '')
        c.prove('edit: refused exactly without an editor', (err is not None) == none)
        if none:
            c.prove('edit: nothing is touched then', not log)
            c.cover('no editor')
            return
        parse = lambda *a: H.ConfigEditApp.interface.parse_args(list(a)).site_name
        c.prove('edit: of the user configuration if no source is named', getattr(H.ConfigEditApp, 'ALLOW_NOARGS', False) and parse() == 'user' and parse(f'--{site}') == site)
        file = f'/{site}/config.toml'
        c.prove('edit: the directory is made, then the editor run once on the file', [x[0] for x in log] == ['make', 'run'] and log[0][1:] == (('dir of', file), True))
        a, k = log[1][1:]
        argv = a[0] if a else k.get('args')
        c.prove('edit: the editor chosen, on the file of the source', isinstance(argv, list) and len(argv) == 2 and argv[1] == file and not k.get('shell') and veq(argv[0], want))
        c.cover(f'edit {site}')
    return body


def run(rep):
    rep.run('ConfigEditApp.run', edit(mod('config')), covers=['no editor', 'edit system', 'edit user', 'edit local'])
    M, H = mod('core.config'), mod('config')
    rep.run('ConfigSetApp (arguments)', arguments(H), covers=['NoneType', 'SymBool', 'SymInt', 'SymReal', 'SymStr'])
    rep.run('ConfigSetApp.run', config_set(H), covers=['rejected', 'set', 'inner section', 'below inner sections'])
    rep.run('update', update(M), covers=['new file', 'existing file', 'failed'])
    rep.run('reload_file', reload_file(M), covers=['error', 'existing file', 'no file'])
    rep.run('load_file, load_env', load_file(M))
    for fname, loader, env in (('partial_load', 'load_file', 'load_env'), ('partial_reload', 'reload_file', 'reload_env')):
        rep.run(fname, layers(M, fname, loader, env), covers=['preload', 'no preload'])
    rep.run('build_preloads, get_logging_style', style(M), covers=['known', 'rejected'])
    rep.run('build_configuration, load, reload, reload_local', build(M), covers=['one file'])
