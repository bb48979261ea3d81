"""Run-time support of the instrumented code (see rewrite.py).  Every helper is the native
operation on concrete values."""
import builtins
import sys
from . import core
from .core import z3, Unsupported, PathEnd, EngineStop
from .values import *
from .values import uf, SymSeq, Unit, Var, Map, norm, as_seq, _base, Capture, subexplore, subst, zstr, znum, mknum, mkstr, toreal, TimeBase, SymDatetime

ENGINE_TYPES = ('SymStr', 'SymInt', 'SymReal', 'SymBool', 'SymTime', 'SymDelta', 'SymSeq', 'SymBytes', 'Opaque', 'Wrapped',
                'Record', 'Frozen', 'IsoText', 'TaskRec', 'SymDatetime', 'SymTimedelta', 'FreeStr')


class _Break:
    pass
BREAK = _Break()


class Ret:
    def __init__(self, value):
        self.value = value


FUNCTIONS = {}          # qualname -> line, of real functions entered under a contract
REPLACED = {}           # class -> stand-in used by isinstance
LOOPS = {}              # qualname -> handler(test, body)  (loop contracts)


def enter(qual, line):
    if core.CUR is not None:
        rep = core.CUR.report
        rep.functions[qual] = line
        core.CUR.depth += 1
        if core.CUR.depth > 20000:
            raise Unsupported('more than 20000 calls on a path')


def caught():
    """First statement of every except clause: engine limitations are not program exceptions."""
    e = sys.exc_info()[1]
    if e is None:
        return
    if isinstance(e, EngineStop):
        raise e
    if isinstance(e, (TypeError, AttributeError, NameError)) and core.CUR is not None:
        m = str(e)
        if any(t in m for t in ENGINE_TYPES) or 'Model' in m:
            raise Unsupported(f'{type(e).__name__}: {m}')


# ------------------------------------------------------------------ loops

def is_symseq(x):
    return isinstance(x, SymSeq) and not x.concrete


class SymIter:
    """Lazy image of a symbolic sequence (map/zip/enumerate/generator expressions)."""
    def __init__(self, seq, used=False):
        self.seq = seq
    def __iter__(self):
        if self.seq.concrete:
            return builtins.iter(builtins.list(self.seq))
        raise Unsupported('native iteration over a symbolic iterator')
    def __next__(self):
        if not self.seq:
            raise StopIteration
        return self.seq.pop(0)


def segs_of(it):
    """Segments of an iterable, or None if native."""
    if isinstance(it, SymSeq):
        return None if it.concrete else it.segs
    if isinstance(it, SymIter):
        return it.seq._norm().segs
    f = getattr(it, 'vc_segs', None)
    if f is not None and not isinstance(it, (Record, Opaque)):
        return f()
    return None


def forloop(it, body, qual='', els=False):
    live = getattr(it, 'vc_iterating', None) if core.CUR is not None else None
    if live is None or isinstance(it, Sym):
        return forloop1(it, body, qual, els)
    live(True)
    try:
        return forloop1(it, body, qual, els)
    finally:
        live(False)


def forloop1(it, body, qual='', els=False):
    own = getattr(it, 'vc_for', None) if core.CUR is not None else None
    if own is not None:
        r = own(body)                    # loop rule supplied by the contract of the iterable
        return None if r is BREAK and not els else r
    segs = segs_of(it)
    if segs is None:
        n = 0
        for x in it:
            n += 1
            if core.CUR is not None and n > 3000:
                raise Unsupported(f'native loop over 3000 iterations in {qual}')
            r = body(x)
            if r is BREAK:
                return BREAK if els else None
            if r is not None:
                return r
        return None
    for s in builtins.list(segs):
        for t in norm([s]):
            if isinstance(t, Unit):
                r = body(t.v)
                if r is BREAK:
                    return BREAK if els else None
                if r is not None:
                    return r
            else:
                fold = [n for n in Cells(body) if hasattr(type(Cells(body).get(n)), 'vc_fold')]
                if fold:
                    cells = Cells(body)
                    if len(fold) > 1:
                        raise Unsupported('several accumulated values')
                    cells.get(fold[0]).vc_fold(t, body, cells, fold[0])
                else:
                    generic(t, body, qual)
    return None


class Cells:
    """The variables of the enclosing function that a loop body may assign."""
    def __init__(self, body):
        import dis
        code = body.__code__
        stored = {i.argval for i in dis.get_instructions(code) if i.opname in ('STORE_DEREF', 'DELETE_DEREF')}
        self.cells = {n: c for n, c in zip(code.co_freevars, body.__closure__ or ()) if n in stored}
    def get(self, n):
        try:
            return self.cells[n].cell_contents
        except ValueError:
            return UNBOUND
    def set(self, n, v):
        self.cells[n].cell_contents = v
    def __iter__(self):
        return builtins.iter(builtins.sorted(self.cells))


UNBOUND = object()


def generic(seg, body, qual):
    """Summarise `for x in seg: body(x)` by one generic element.  Effects allowed in the body:
    appends to lists / recorded effects, writes to the element itself, writes to fresh objects."""
    c = core.ctx()
    var = _base(seg)
    branches = [(z3.BoolVal(True), [var.gen])] if isinstance(seg, Var) else seg.branches
    if c.capture is not None:
        raise Unsupported('nested summarised loops')
    out = []            # (cond, effects)
    writes = []
    for cond, vs in branches:
        elements = [u for v in vs for u in (v if type(v) is builtins.tuple else (v,)) if isinstance(u, Record)]
        def run(cap, vs=vs, cond=cond, elements=elements):
            cap.elements = elements
            core.ctx().assume(var.n > 0)
            core.ctx().assume(cond)
            for v in vs:
                r = body(v)
                if r is BREAK or r is not None:
                    raise Unsupported('early exit from a summarised loop')
            return None
        for cnd, _, cap in subexplore(run):
            out.append((cnd, cap.effects))
            writes.append((elements, cap.gwrites))
    for rec in {builtins.id(e): e for es, _ in writes for e in es}.values():
        ws = [{a: v for (i, a), v in w.items() if i == builtins.id(rec)} for es, w in writes if any(e is rec for e in es)]
        if any(builtins.set(w) != builtins.set(ws[0]) for w in ws) or any(veq(w[a], ws[0][a]) is not True for w in ws for a in w):
            raise Unsupported('conditional writes to the elements of a symbolic sequence')
        for a, v in ws[0].items():
            rec.__dict__['_vals'][a] = v
            rec.__dict__['_writes'].append(a)
    # group the effects per target, keeping branch structure
    targets = []
    for _, eff in out:
        for t, _vals in eff:
            if all(t is not u for u in targets):
                targets.append(t)
    for t in targets:
        brs = []
        for cnd, eff in out:
            vals = []
            for u, v in eff:
                if u is t:
                    vals.extend(v)
            brs.append((cnd, vals))
        t.vc_append_segs([Map(var, brs)])
    return None


def whileloop(test, body, qual=''):
    h = LOOPS.get(qual)
    if h is not None and core.CUR is not None:
        return h(test, body)
    n = 0
    while test():
        n += 1
        if core.CUR is not None and n > 60:
            raise Unsupported(f'while loop without contract in {qual}')
        r = body()
        if r is BREAK:
            return None
        if r is not None:
            return r
    return None


def comp(kind, it, fn, cond, star):
    f = (lambda x: fn(*x)) if star else fn
    g = None if cond is None else ((lambda x: cond(*x)) if star else cond)
    segs = segs_of(it)
    if segs is None:
        if kind == 'gen':
            return (f(x) for x in it if g is None or g(x))
        if kind == 'list':
            return SymSeq(elems=[f(x) for x in it if g is None or g(x)])
        if kind == 'set':
            return {f(x) for x in it if g is None or g(x)}
        pairs = [f(x) for x in it if g is None or g(x)]
        return mkdict(*[(False, k, v) for k, v in pairs])
    if kind == 'dict':
        h = core.ctx().env.get('dict of')      # a contract that knows the keys to be distinct
        if h is None:
            raise Unsupported('dict comprehension over a symbolic sequence')
        return h(SymSeq(mapsegs(segs, f, g)))
    if kind == 'set':
        raise Unsupported('set comprehension over a symbolic sequence')
    res = SymSeq(mapsegs(segs, f, g))
    return SymIter(res) if kind == 'gen' else res


def mapsegs(segs, f, g=None):
    c = core.ctx()
    out = []
    for s in builtins.list(segs):
        for t in norm([s]):
            if isinstance(t, Unit):
                if g is None or g(t.v):
                    out.append(Unit(f(t.v)))
                continue
            var = _base(t)
            brs = [(z3.BoolVal(True), [var.gen])] if isinstance(t, Var) else t.branches
            res = []
            outer = c.capture
            for cond, vs in brs:
                def run(cap, vs=vs, cond=cond):
                    cap.outer = outer
                    core.ctx().assume(var.n > 0)
                    core.ctx().assume(cond)
                    return [f(v) for v in vs if g is None or g(v)]
                for cnd, val, cap in subexplore(run):
                    if cap.effects:
                        raise Unsupported('effects inside a comprehension')
                    res.append((cnd, val))
            out.append(Map(var, res))
    return out


# ------------------------------------------------------------------ expressions

def fstr(*parts):
    vals = []
    sym = False
    for p in parts:
        if isinstance(p, builtins.str):
            vals.append(p)
            continue
        v, conv, spec = p
        if isinstance(v, (Sym, SymSeq)) or isinstance(v, BaseException):
            if isinstance(v, (SymStr,)) and conv == -1 and spec == '':
                vals.append(v); sym = True
                continue
            if isinstance(v, Scalar) and spec == '':
                vals.append(b_repr(v) if conv == 114 else b_str(v)); sym = True
                continue
            if isinstance(v, BaseException):
                if hasattr(v, 'vc_str') and spec == '' and conv in (-1, 115):
                    vals.append(v.vc_str()); sym = True
                else:
                    vals.append('<exception>')
                continue
            if isinstance(v, SymDelta) and spec == '' and conv in (-1, 115):
                vals.append(b_str(v)); sym = True
                continue
            vals.append(FreeStr()); sym = True
            continue
        if conv == 114:
            v = builtins.repr(v)
        elif conv == 115:
            v = builtins.str(v)
        vals.append(builtins.format(v, spec if isinstance(spec, builtins.str) else ''))
    if not sym:
        return ''.join(vals)
    return concat(vals)


def strformat(s, *a, **k):
    """'...'.format(...)"""
    if core.CUR is None or not isinstance(s, builtins.str):
        return s.format(*a, **k)
    if not any(isinstance(x, (Sym, SymSeq, BaseException)) for x in [*a, *k.values()]):
        return s.format(*a, **k)
    import string
    parts, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            parts.append(lit)
        if field is None:
            continue
        if field == '':
            v, auto = a[auto], auto + 1
        elif field.isdigit():
            v = a[builtins.int(field)]
        elif field.isidentifier():
            v = k[field]
        else:
            raise Unsupported('str.format')
        parts.append((v, ord(conv) if conv else -1, spec or ''))
    return fstr(*parts)


def mod(x, y):
    """x % y"""
    if core.CUR is None or not isinstance(x, builtins.str):
        return x % y
    vals = y if type(y) is builtins.tuple else (y,)
    if not any(isinstance(v, (Sym, SymSeq, BaseException)) for v in vals):
        return x % y
    import re
    parts, n = [], 0
    for t in re.split(r'(%[sdrd%])', x):
        if t == '%%':
            parts.append('%')
        elif t in ('%s', '%d', '%r'):
            parts.append((vals[n], 114 if t == '%r' else -1, ''))
            n += 1
        elif '%' in t:
            raise Unsupported('format of a text')
        elif t:
            parts.append(t)
    if n != builtins.len(vals):
        raise TypeError('not all arguments converted during string formatting')
    return fstr(*parts)


def FreeStr():
    """A text about which nothing is known."""
    return SymStr(z3.String(core.ctx().fresh_name('text')))


def concat(vals):
    zs = [zstr(v) for v in vals if not (isinstance(v, builtins.str) and v == '')]
    if not zs:
        return ''
    if len(zs) == 1:
        return vals[0] if len(vals) == 1 else mkstr(zs[0])
    return mkstr(z3.Concat(*zs))


def join(sep, it):
    if not isinstance(sep, (builtins.str, SymStr)):
        return sep.join(it)
    segs = segs_of(it)
    if segs is not None:
        return joined(sep, segs)
    items = builtins.list(it)
    if not any(isinstance(x, Sym) for x in items) and isinstance(sep, builtins.str):
        return sep.join(items)
    out = []
    for i, x in enumerate(items):
        if i and not (isinstance(sep, builtins.str) and sep == ''):
            out.append(sep)
        if zstr(x) is None:
            raise TypeError('sequence item: expected str instance')
        out.append(x)
    return concat(out)


def joined(sep, segs):
    """Text determined by separator and sequence (uninterpreted in the sequence)."""
    segs = norm(segs)
    if builtins.len(segs) == 1 and isinstance(segs[0], Var):
        return SymStr(z3.String(f'join({sep!r}, {segs[0].name})'))
    raise Unsupported('join of a symbolic sequence')


def mklist(x):
    if core.CUR is None:
        return x
    r = SymSeq(elems=x)
    if core.CUR.capture is not None:
        core.CUR.capture.local.add(id(r))
        core.CUR.capture.keep.append(r)
    return r


def mkdict(*pairs):
    """Dictionary display.  With symbolic keys: a dictionary that compares its keys by value."""
    if core.CUR is not None:
        for star, k, v in pairs:
            if star and hasattr(v, 'vc_layers'):
                return v.vc_layers(pairs)
    if core.CUR is None or not (core.CUR.env.get('flex') or any(isinstance(v, SymDict) if star else isinstance(k, SymStr) for star, k, v in pairs)):
        d = {}
        for star, k, v in pairs:
            if star:
                d.update(v)
            else:
                d[k] = v
        return d
    d = SymDict()
    for star, k, v in pairs:
        if star:
            d.update(v)
        else:
            d[k] = v
    return d


def flat(lists):
    if core.CUR is None or not isinstance(lists, SymSeq):
        return [x for l in lists for x in l]
    r = mklist([])
    if not lists.concrete:
        raise Unsupported('nested comprehension over a symbolic sequence')
    for s in lists.segs:
        r.extend(s.v)
    return r


def liststar(*parts):
    r = []
    if core.CUR is not None:
        r = mklist(r)
    for star, v in parts:
        if star:
            r.extend(v)
        else:
            r.append(v)
    return r


def is_(a, b):
    if isinstance(a, SymBool) and isinstance(b, builtins.bool):
        return (a == b)
    if isinstance(b, SymBool) and isinstance(a, builtins.bool):
        return (b == a)
    f = getattr(a, 'vc_is', None) if isinstance(a, Sym) else None
    if f is not None:
        return f(b)
    return a is b


def is_not(a, b):
    r = is_(a, b)
    return (~r) if isinstance(r, SymBool) else not r


def getitem(x, k):
    """x[k]; a native dictionary is looked up with a symbolic key by comparing its keys."""
    if isinstance(k, Sym) and type(x) is dict and not hasattr(k, 'vc_key'):
        for q in x:
            if bool_of(veq(k, q)):
                return x[q]
        raise KeyError(k)
    return x[k]


def dictget(x, k, *d):
    if isinstance(k, Sym) and type(x) is dict and not hasattr(k, 'vc_key'):
        for q in x:
            if bool_of(veq(k, q)):
                return x[q]
        return d[0] if d else None
    return x.get(k, *d)


def in_(a, b):
    if isinstance(a, Sym) and isinstance(b, builtins.str):
        if zstr(a) is None:
            raise TypeError('in <string>')
        return SymBool(z3.Contains(z3.StringVal(b), zstr(a)))
    if isinstance(a, Sym) and isinstance(b, (dict, set, frozenset)) and type(b) in (dict, set, frozenset):
        for k in b:
            if bool_of(veq(a, k)):
                return True
        return False
    if hasattr(b, 'vc_contains'):
        return b.vc_contains(a)
    return a in b


def not_in(a, b):
    r = in_(a, b)
    return (~r) if isinstance(r, SymBool) else not r


# ------------------------------------------------------------------ builtins

def b_len(x):
    f = getattr(x, 'vc_len', None) if isinstance(x, (Sym, SymSeq)) or hasattr(type(x), 'vc_len') else None
    return f() if f is not None else builtins.len(x)


def b_isinstance(x, t):
    if isinstance(t, builtins.tuple):
        return any(b_isinstance(x, u) for u in t)
    f = getattr(type(x), 'vc_isinstance', None) if isinstance(x, Sym) else None
    if f is not None:
        return f(x, REPLACED.get(t, t))
    if t is SymDatetime:
        import datetime as _dt
        return isinstance(x, (TimeBase, _dt.datetime))
    t = REPLACED.get(t, t)
    if isinstance(x, Sym):
        f = getattr(type(x), 'vc_isinstance', None)
        if f is not None:
            return f(x, t)
        if isinstance(x, SymStr):
            return t in (builtins.str, object)
        if isinstance(x, SymBool):
            return t in (builtins.bool, builtins.int, object)
        if isinstance(x, SymInt):
            return t in (builtins.int, object)
        if isinstance(x, SymReal):
            return t in (builtins.float, object)
        if isinstance(x, SymBytes):
            return t in (builtins.bytes, object)
        if isinstance(x, SymTime):
            import datetime as _dt
            return t in (_dt.datetime, object)
        if isinstance(x, Opaque):
            raise Unsupported(f'isinstance of opaque {x}')
        if isinstance(t, type) and isinstance(x, t):
            return True
        if isinstance(x, (SymDelta, Wrapped, Record)):
            return False
    return builtins.isinstance(x, t)


def b_str(*a, **k):
    if len(a) == 1 and isinstance(a[0], Sym):
        v = a[0]
        if hasattr(v, 'vc_str'):
            return v.vc_str()
        if isinstance(v, SymStr):
            return v
        if isinstance(v, SymInt):
            return SymStr(z3.If(v.z >= 0, z3.IntToStr(v.z), z3.Concat(z3.StringVal('-'), z3.IntToStr(-v.z))))
        if isinstance(v, SymBool):
            return SymStr(z3.If(v.z, z3.StringVal('True'), z3.StringVal('False')))
        if isinstance(v, SymTime):
            return IsoText(v)
        if isinstance(v, (SymReal,)):
            return SymStr(uf('py_str_real', z3.RealSort(), z3.StringSort())(v.z))
        if isinstance(v, SymDelta):
            return SymStr(uf('py_str_timedelta', z3.RealSort(), z3.StringSort())(toreal(v.z)))
        return FreeStr()
    return builtins.str(*a, **k)


def b_repr(v):
    if isinstance(v, (Sym, SymSeq)):
        return FreeStr()
    return builtins.repr(v)


def b_int(*a):
    if a and isinstance(a[0], Sym):
        v = a[0]
        if isinstance(v, SymInt):
            return v
        if isinstance(v, SymBool):
            return SymInt(z3.If(v.z, 1, 0))
        if isinstance(v, SymReal):
            z = v.z
            return mknum(z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z)))
        if hasattr(type(v), 'vc_int') and v.vc_int() is not None:
            return v.vc_int()
        if isinstance(v, SymStr):
            ok = uf('is_int_text', z3.StringSort(), z3.BoolSort())(v.z)
            if core.ctx().branch(ok, 'text-is-int'):
                return SymInt(uf('int_of_text', z3.StringSort(), z3.IntSort())(v.z))
            raise ValueError('invalid literal for int()')
        raise TypeError(f'int() argument {type(v).__name__}')
    return builtins.int(*a)


def b_float(*a):
    if a and isinstance(a[0], Sym):
        v = a[0].force() if isinstance(a[0], Opt) else a[0]
        if v is None:
            raise TypeError("float() argument must be a string or a real number, not 'NoneType'")
        if isinstance(v, (SymInt, SymReal)):
            return SymReal(toreal(v.z))
        if isinstance(v, SymStr):
            ok = uf('is_float_text', z3.StringSort(), z3.BoolSort())(v.z)
            if core.ctx().branch(ok, 'text-is-float'):
                return SymReal(uf('float_of_text', z3.StringSort(), z3.RealSort())(v.z))
            raise ValueError('could not convert string to float')
        raise Unsupported('float()')
    return builtins.float(*a)


def b_bool(*a):
    return builtins.bool(*a)


def b_round(v, *a):
    if isinstance(v, SymReal) and not a:
        k = z3.Int(core.ctx().fresh_name('round'))
        core.ctx().solver.add(2 * z3.ToReal(k) - 2 * v.z <= 1, 2 * v.z - 2 * z3.ToReal(k) <= 1)
        return SymInt(k)
    if isinstance(v, SymInt):
        return v
    return builtins.round(v, *a)


def b_abs(v):
    return abs(v)


def b_print(*args, **kw):
    f = kw.get('file')
    if f is not None and hasattr(f, 'vc_print'):
        f.vc_print(args, kw)
        return None
    c = core.CUR
    if c is not None:
        out = c.env.get('stdout')
        if out is not None:
            out.vc_print(args, kw)
        return None
    return builtins.print(*args, **kw)


def b_list(*a):
    if a:
        x = a[0]
        s = segs_of(x)
        if s is not None:
            return SymSeq(s)
        if isinstance(x, SymSeq):
            return x.copy()
        if hasattr(x, 'vc_keys'):
            return x.vc_keys()
        if hasattr(x, 'vc_for') and not isinstance(x, Sym):
            return Copied(x)
        return mklist(builtins.list(x))
    return mklist([])


def b_tuple(*a):
    if a:
        s = segs_of(a[0])
        if s is not None:
            return SymSeq(s)
        if core.CUR is not None and hasattr(a[0], 'vc_for') and not isinstance(a[0], Sym):
            return Copied(a[0])
    return builtins.tuple(*a)


def b_set(*a):
    if a and segs_of(a[0]) is not None:
        raise Unsupported('set of a symbolic sequence')
    return builtins.set(*a)


def b_dict(*a, **k):
    if a and segs_of(a[0]) is not None:
        raise Unsupported('dict of a symbolic sequence')
    if a and hasattr(a[0], 'vc_dict'):
        return a[0].vc_dict(*a[1:], **k)
    if core.CUR is not None and core.CUR.env.get('flex'):
        d = SymDict()
        d.update(*a, **k)
        return d
    return builtins.dict(*a, **k)


def unpack(v, before, after):
    """The value of the assignment to  before names, a starred name, after names."""
    f = getattr(v, 'vc_unpack', None)
    if core.CUR is not None and f is not None:
        return f(before, after)
    if is_symseq(v) and not v.concrete:
        raise Unsupported('unpacking of a symbolic sequence')
    v = builtins.list(v)
    if len(v) < before + after:
        raise ValueError(f'not enough values to unpack (expected at least {before + after}, got {len(v)})')
    return (*v[:before], v[before:len(v) - after], *v[len(v) - after:])


def same_base(segss):
    n = builtins.len(segss[0])
    if any(builtins.len(s) != n for s in segss):
        return False
    for col in builtins.zip(*segss):
        if all(isinstance(s, Unit) for s in col):
            continue
        if any(isinstance(s, Unit) for s in col) or len({_base(s).name for s in col}) != 1:
            return False
    return True


def b_zip(*its, **kw):
    if all(segs_of(i) is None for i in its):
        return builtins.zip(*its, **kw)
    segss = [norm(segs_of(i) if segs_of(i) is not None else as_seq(builtins.list(i)).segs) for i in its]
    if not same_base(segss):
        raise Unsupported('zip of unaligned symbolic sequences')
    out = []
    for col in builtins.zip(*segss):
        if all(isinstance(s, Unit) for s in col):
            out.append(Unit(builtins.tuple(s.v for s in col)))
            continue
        var = _base(col[0])
        brs = [(z3.BoolVal(True), [])]
        rows = []
        def expand(i, cond, vals):
            if i == len(col):
                rows.append((z3.simplify(cond), vals))
                return
            s = col[i]
            for c, vs in ([(z3.BoolVal(True), [var.gen])] if isinstance(s, Var) else s.branches):
                expand(i + 1, z3.And(cond, c), vals + [vs])
        expand(0, z3.BoolVal(True), [])
        res = []
        for cond, vals in rows:
            if z3.is_false(cond):
                continue
            if len({len(v) for v in vals}) != 1:
                raise Unsupported('zip of filtered symbolic sequences')
            res.append((cond, [builtins.tuple(t) for t in builtins.zip(*vals)]))
        out.append(Map(var, res))
    return SymIter(SymSeq(out))


def b_map(f, *its):
    if len(its) == 1 and segs_of(its[0]) is not None:
        g = unwrap_callable(f)
        return SymIter(SymSeq(mapsegs(segs_of(its[0]), g)))
    if f in NATIVE_CALLABLES:
        return builtins.map(unwrap_callable(f), *its)
    return builtins.map(f, *its)


def unwrap_callable(f):
    if f is builtins.str:
        return b_str
    if f is builtins.str.strip:
        return lambda s: s.strip()
    if f is builtins.str.lower:
        return lambda s: s.lower()
    if f is builtins.int:
        return b_int
    if f is builtins.len:
        return b_len
    return f


def callee(f):
    """The function called through a local name."""
    return f if core.CUR is None or isinstance(f, Sym) or not isinstance(f, builtins.type(builtins.str)) and f not in (builtins.len,) else unwrap_callable(f)


NATIVE_CALLABLES = {builtins.str, builtins.str.strip, builtins.str.lower, builtins.int, builtins.len}


def b_filter(f, it):
    s = segs_of(it)
    if s is not None:
        return SymIter(SymSeq(mapsegs(s, lambda x: x, f or (lambda x: x))))
    return builtins.filter(f, it)


class LoopIndex:
    """The index of an arbitrary element: may be passed around and shown, nothing more."""
    def __str__(self):
        return '<index>'
    __repr__ = __str__
    def __format__(self, spec):
        return '<index>'
    def _bad(self, *a):
        raise Unsupported('the index of a loop')
    __hash__ = None
for _n in ('bool', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'mod', 'floordiv', 'truediv', 'index', 'int'):
    builtins.setattr(LoopIndex, f'__{_n}__', LoopIndex._bad)


class Body:
    """A loop body seen through enumerate()."""
    def __init__(self, body):
        self.body, self.__code__, self.__closure__ = body, body.__code__, body.__closure__
    def __call__(self, x):
        return self.body((LoopIndex(), x))


class Copied:
    """list() of an iterable with its own loop rule: can only be iterated."""
    def __init__(self, it):
        self.it = it
    def __iter__(self):
        raise Unsupported('native iteration over a copy')
    def vc_for(self, body):
        return forloop(self.it, body)


class Enumerated:
    """enumerate() of an iterable with its own loop rule; the index may only be passed around."""
    def __init__(self, it):
        self.it = it
    def __iter__(self):
        raise Unsupported('native iteration over enumerate()')
    def vc_for(self, body):
        return forloop(self.it, Body(body))


def b_enumerate(it, start=0):
    if core.CUR is not None and hasattr(it, 'vc_for') and not isinstance(it, Sym):
        return Enumerated(it)
    s = segs_of(it)
    if s is None:
        return builtins.enumerate(it, start)
    segs = norm(s)
    c = core.ctx()
    out = []
    pos = z3.IntVal(start)
    for t in segs:
        if isinstance(t, Unit):
            out.append(Unit((mknum(pos), t.v)))
            pos = pos + 1
            continue
        var = _base(t)
        brs = [(z3.BoolVal(True), [var.gen])] if isinstance(t, Var) else t.branches
        ks = {builtins.len(vs) for _, vs in brs}
        if ks != {1}:
            raise Unsupported('enumerate of a symbolic sequence')
        idx = z3.Int(f'{var.name}.index')
        c.solver.add(idx >= 0, z3.Implies(var.n > 0, idx < var.n))
        out.append(Map(var, [(cnd, [(mknum(z3.simplify(pos + idx)), vs[0])]) for cnd, vs in brs]))
        pos = pos + var.n
    return SymIter(SymSeq(out))


def b_sum(it, *a):
    s = segs_of(it)
    if s is not None:
        h = core.ctx().env.get('sum of')
        if h is None or a:
            raise Unsupported('sum of a symbolic sequence')
        return h(SymSeq(builtins.list(s)))
    tot = a[0] if a else 0
    for x in it:
        tot = tot + x
    return tot


def _exists(segs, wanted, what):
    """Whether some element has the wanted truth value; elements of a symbolic part must all have the same constant."""
    for s in builtins.list(segs):
        for t in norm([s]):
            if isinstance(t, Unit):
                if builtins.bool(t.v) is wanted:
                    return True
                continue
            vals = [t.var.gen] if isinstance(t, Var) else [v for _, vs in t.branches for v in vs]
            if isinstance(t, Var) or any(len(vs) != 1 for _, vs in t.branches) or not all(type(v) is bool for v in vals) or len(builtins.set(vals)) != 1:
                raise Unsupported(f'{what} of a symbolic sequence')
            if vals[0] is wanted and core.ctx().branch(t.var.n > 0):
                return True
    return False


def b_any(it):
    s = segs_of(it)
    if s is None:
        return builtins.any(it)
    return _exists(s, True, 'any()')


def b_all(it):
    s = segs_of(it)
    if s is None:
        return builtins.all(it)
    return not _exists(s, False, 'all()')


def b_sorted(it, **k):
    s = segs_of(it)
    if s is None:
        return builtins.sorted(it, **k)
    raise Unsupported('sorted() of a symbolic sequence')


def b_reversed(it):
    s = segs_of(it)
    if s is None:
        return builtins.reversed(it)
    raise Unsupported('reversed() of a symbolic sequence')


def _minmax(args, kw, lt, native):
    if len(args) == 1 or kw:
        if len(args) == 1 and segs_of(args[0]) is not None:
            raise Unsupported('min/max of a symbolic sequence')
        items = builtins.list(args[0]) if len(args) == 1 else builtins.list(args)
    else:
        items = builtins.list(args)
    if kw or not any(isinstance(x, Num) for x in items):
        return native(*args, **kw)
    r = items[0]
    for x in items[1:]:
        a, b = znum(r), znum(x)
        if a.sort() != b.sort():
            a, b = toreal(a), toreal(b)
        r = mknum(z3.If(lt(b, a), b, a))
    return r


def b_min(*a, **k):
    return _minmax(a, k, lambda x, y: x < y, builtins.min)


def b_max(*a, **k):
    return _minmax(a, k, lambda x, y: x > y, builtins.max)


def b_range(*a):
    if any(isinstance(x, Num) for x in a):
        n = a[0] if len(a) == 1 else None
        if n is None and len(a) == 2 and not isinstance(a[0], Num) and a[0] == 0:
            n = a[1]
        c = core.ctx()
        if n is None:
            if len(a) != 2:
                raise Unsupported('range with symbolic step')
            lo, hi = (z3.simplify(znum(x)) for x in a)
            key = f'range({lo.sexpr()}, {hi.sexpr()})'
            v = Var(key, lambda nm: SymInt(z3.Int(nm)))
            if key not in c.env.setdefault('spans', {}):
                c.solver.add(v.n == z3.If(hi >= lo, hi - lo, 0))
                c.solver.add(z3.Implies(v.n > 0, z3.And(v.gen.z >= lo, v.gen.z < hi)))
                c.env['spans'][key] = (lo, hi)
            return SymIter(SymSeq([v]))
        v = Var(c.fresh_name('range'), lambda nm: SymInt(z3.Int(nm)))
        c.solver.add(v.n == z3.If(n.z >= 0, n.z, 0))
        c.solver.add(v.gen.z >= 0, z3.Implies(v.n > 0, v.gen.z < v.n))
        c.env.setdefault('ranges', {})[v.name] = n
        return SymIter(SymSeq([v]))
    return builtins.range(*a)


def b_iter(*a):
    if len(a) == 1:
        s = segs_of(a[0])
        if s is not None:
            return a[0] if isinstance(a[0], SymIter) else SymIter(SymSeq(s))
    return builtins.iter(*a)


def b_next(*a):
    if isinstance(a[0], SymIter):
        try:
            return a[0].__next__()
        except StopIteration:
            if len(a) > 1:
                return a[1]
            raise
    return builtins.next(*a)


def b_open(*a, **k):
    c = core.CUR
    if c is not None:
        f = c.env.get('open')
        if f is None:
            raise Unsupported('open()')
        return f(*a, **k)
    return builtins.open(*a, **k)


def b_input(*a):
    c = core.CUR
    if c is not None:
        f = c.env.get('input')
        if f is None:
            raise Unsupported('input()')
        return f(*a)
    return builtins.input(*a)


def b_hash(x):
    return builtins.hash(x)


def b_type(*a):
    if len(a) == 1 and isinstance(a[0], Scalar):
        v = a[0]
        for t, n in ((SymStr, builtins.str), (SymBool, builtins.bool), (SymInt, builtins.int), (SymReal, builtins.float)):
            if isinstance(v, t):
                return n
    return builtins.type(*a)


def b_getattr(obj, name, *default):
    if isinstance(name, SymStr):  # one of finitely many names, each its own path
        c = ctx()
        for _ in builtins.range(16):
            c.solver.check()
            v = c.solver.model().eval(name.z, model_completion=True)
            if c.branch(name.z == v):
                name = v.as_string()
                break
        else:
            raise Unsupported('getattr with an arbitrary name')
    return builtins.getattr(obj, name, *default)


def b_callable(x):
    return builtins.callable(x)
