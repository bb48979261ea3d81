"""Symbolic values: scalars, time, records and sequences."""
from fractions import Fraction
from . import core
from .core import z3, ctx, Unsupported, PathEnd

# ----------------------------------------------------------------------------------- scalars

def is_sym(x):
    return isinstance(x, Sym)


class Sym:
    """Base of all symbolic values."""
    __slots__ = ()
    def __hash__(self):
        raise Unsupported(f'hash of symbolic {type(self).__name__}')


class Scalar(Sym):
    __slots__ = ('z',)
    def __init__(self, z):
        self.z = z
    def __repr__(self):
        return f'<{self.z}>'
    def __format__(self, spec):
        return f'<{self.z}>'


class SymBool(Scalar):
    def zbool(self):
        return self.z
    def __bool__(self):
        return ctx().branch(self.z)
    def __eq__(self, o):
        return SymBool(self.z == zb(o)) if isinstance(o, (bool, SymBool)) else (SymInt(z3.If(self.z, 1, 0)) == o)
    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(z3.Not(r.z)) if isinstance(r, SymBool) else not r
    __hash__ = Sym.__hash__
    def __and__(self, o): return SymBool(z3.And(self.z, zb(o)))
    def __or__(self, o): return SymBool(z3.Or(self.z, zb(o)))
    def __invert__(self): return SymBool(z3.Not(self.z))
    def __int__(self): return 1 if bool(self) else 0
    def __index__(self): return 1 if bool(self) else 0


def zb(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, SymBool):
        return x.z
    return z3.BoolVal(bool(x))


def znum(x):
    """z3 arithmetic expression of a number, or None."""
    if isinstance(x, (SymInt, SymReal)):
        return x.z
    if isinstance(x, SymBool):
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('nan/inf in symbolic arithmetic')
        f = Fraction(x)
        return z3.Q(f.numerator, f.denominator)
    return None


def mknum(z):
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    return SymInt(z) if z.sort() == z3.IntSort() else SymReal(z)


class Num(Scalar):
    def _bin(self, o, f):
        b = znum(o)
        if b is None:
            return NotImplemented
        return mknum(f(self.z, b))
    def _cmp(self, o, f):
        b = znum(o)
        if b is None:
            return NotImplemented
        return SymBool(f(self.z, b))
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)
    def __neg__(self): return mknum(-self.z)
    def __pos__(self): return self
    def __abs__(self): return mknum(z3.If(self.z >= 0, self.z, -self.z))
    def __truediv__(self, o):
        b = znum(o)
        if b is None:
            return NotImplemented
        if ctx().branch(b == 0):
            raise ZeroDivisionError('division by zero')
        return SymReal(z3.simplify(toreal(self.z) / toreal(b)))
    def __rtruediv__(self, o):
        a = znum(o)
        if a is None:
            return NotImplemented
        if ctx().branch(self.z == 0):
            raise ZeroDivisionError('division by zero')
        return SymReal(z3.simplify(toreal(a) / toreal(self.z)))
    def __floordiv__(self, o):
        b = znum(o)
        if b is None:
            return NotImplemented
        if ctx().branch(b == 0):
            raise ZeroDivisionError('division by zero')
        q = z3.ToInt(toreal(self.z) / toreal(b))
        return mknum(q if self.z.sort() == z3.IntSort() and b.sort() == z3.IntSort() else z3.ToReal(q))
    def __mod__(self, o):
        return self - (self // o) * o
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o):
        b = znum(o)
        return False if b is None else SymBool(self.z == b)
    def __ne__(self, o):
        b = znum(o)
        return True if b is None else SymBool(self.z != b)
    __hash__ = Sym.__hash__
    def __bool__(self):
        return ctx().branch(self.z != 0)


def toreal(z):
    return z3.ToReal(z) if z.sort() == z3.IntSort() else z


class SymInt(Num):
    def __index__(self):
        z = z3.simplify(self.z)
        if z3.is_int_value(z):
            return z.as_long()
        raise Unsupported('symbolic integer used as a machine index')
    def __int__(self):
        return self.__index__()


class SymReal(Num):
    def __int__(self):
        raise Unsupported('int() of a symbolic real outside the instrumented code')


STRIP = z3.Function('py_strip', z3.StringSort(), z3.StringSort())
UPPER = z3.Function('py_upper', z3.StringSort(), z3.StringSort())
LOWER = z3.Function('py_lower', z3.StringSort(), z3.StringSort())
_UF = {}

def uf(name, *sorts):
    key = (name,) + tuple(str(s) for s in sorts)
    if key not in _UF:
        _UF[key] = z3.Function(name, *sorts)
    return _UF[key]


def zstr(x):
    if isinstance(x, SymStr):
        return x.z
    if isinstance(x, str):
        return z3.StringVal(x)
    return None


def mkstr(z):
    z = z3.simplify(z)
    if z3.is_string_value(z):
        return _unescape(z)
    return SymStr(z)


def _unescape(z):
    s = z.as_string()
    import re
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)


class SymStr(Scalar):
    def __eq__(self, o):
        b = zstr(o)
        return False if b is None else SymBool(self.z == b)
    def __ne__(self, o):
        b = zstr(o)
        return True if b is None else SymBool(self.z != b)
    __hash__ = Sym.__hash__
    def __bool__(self):
        return ctx().branch(z3.Length(self.z) > 0)
    def __add__(self, o):
        b = zstr(o)
        return NotImplemented if b is None else mkstr(z3.Concat(self.z, b))
    def __radd__(self, o):
        b = zstr(o)
        return NotImplemented if b is None else mkstr(z3.Concat(b, self.z))
    def __contains__(self, o):
        b = zstr(o)
        if b is None:
            raise TypeError('in <string> requires string')
        return ctx().branch(z3.Contains(self.z, b))
    def __lt__(self, o): return SymBool(self.z < zstr(o))
    def __le__(self, o): return SymBool(self.z <= zstr(o))
    def strip(self, chars=None):
        if chars is None:
            r = SymStr(STRIP(self.z))
            ctx().assume(STRIP(r.z) == r.z)          # idempotent
            ctx().assume(z3.Length(r.z) <= z3.Length(self.z))
            return r
        return strip_chars(self, chars)
    def lstrip(self, chars=None):
        if chars is None:
            raise Unsupported('str.lstrip on symbolic string')
        return strip_chars(self, chars, right=False)
    def rstrip(self, chars=None):
        if chars is None:
            raise Unsupported('str.rstrip on symbolic string')
        return strip_chars(self, chars, left=False)
    def replace(self, a, b, count=-1):
        if count != -1 or zstr(a) is None or zstr(b) is None:
            raise Unsupported('str.replace on symbolic string')
        S = z3.StringSort()
        return SymStr(uf('py_replace', S, S, S, S)(self.z, zstr(a), zstr(b)))
    def split(self, sep=None, maxsplit=-1):
        if isinstance(sep, str) and sep and maxsplit == 1:
            a, s, b = self.partition(sep)
            return [a, b] if s == sep else [a]
        raise Unsupported('str.split on symbolic string')
    def partition(self, sep):
        if not isinstance(sep, str) or len(sep) != 1:
            raise Unsupported('str.partition on symbolic string')
        c = ctx()
        if not c.branch(z3.Contains(self.z, sep), f'{sep!r} in text'):
            return self, '', ''
        key = ('partition', self.z.get_id(), sep)
        if key not in c.objs:
            a, b = z3.String(c.fresh_name('before')), z3.String(c.fresh_name('after'))
            c.solver.add(self.z == z3.Concat(a, z3.StringVal(sep), b), z3.Not(z3.Contains(a, sep)))
            c.objs[key] = (SymStr(a), SymStr(b), self)
        return c.objs[key][0], sep, c.objs[key][1]
    def lower(self):
        return SymStr(LOWER(self.z))
    def upper(self):
        return SymStr(UPPER(self.z))
    def removeprefix(self, p):
        b = zstr(p)
        return SymStr(z3.If(z3.PrefixOf(b, self.z), z3.SubString(self.z, z3.Length(b), z3.Length(self.z) - z3.Length(b)), self.z))
    def __getitem__(self, k):
        if isinstance(k, slice) and k.step is None and isinstance(k.start, int) and k.start >= 0 and k.stop is None:
            return SymStr(z3.SubString(self.z, k.start, z3.Length(self.z) - k.start))
        if isinstance(k, slice) and k.step is None and k.start in (None, 0) and isinstance(k.stop, int) and k.stop >= 0:
            return SymStr(z3.SubString(self.z, 0, k.stop))
        if isinstance(k, slice) and k.step is None and isinstance(k.start, int) and k.start >= 0 and isinstance(k.stop, int) and k.stop < 0:
            return SymStr(z3.SubString(self.z, k.start, z3.Length(self.z) - (k.start - k.stop)))
        raise Unsupported('slice of a symbolic text')
    def zfill(self, n):
        from .parts import zfill
        return zfill(self, n)
    def encode(self, *a):
        f = core.CUR.env.get('encode') if core.CUR is not None else None
        if f is not None:
            f(self, *a)                          # raises if the text cannot be encoded
        return SymBytes(self)
    def startswith(self, p):
        return SymBool(z3.PrefixOf(zstr(p), self.z))
    def endswith(self, p):
        return SymBool(z3.SuffixOf(zstr(p), self.z))
    def __len__(self):
        raise Unsupported('len() of symbolic string outside the instrumented code')
    def vc_len(self):
        return SymInt(z3.Length(self.z))
    def __iter__(self):
        raise Unsupported('iteration over a symbolic string')
    def __getattr__(self, name):
        if name in dir(str):
            raise Unsupported(f'str.{name} on symbolic string')
        raise AttributeError(name)


def strip_chars(s, chars, left=True, right=True):
    """Exact contract of strip/lstrip/rstrip with a concrete set of characters."""
    if not isinstance(chars, str) or not chars:
        raise Unsupported('strip with symbolic characters')
    c = ctx()
    parts = []
    def flatten(e):
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            for k in e.children():
                flatten(k)
        else:
            parts.append(e)
    flatten(z3.simplify(s.z))
    while parts and left and z3.is_string_value(parts[0]):
        t = _unescape(parts[0]).lstrip(chars)
        if t:
            parts[0] = z3.StringVal(t)
            break
        parts.pop(0)
    while parts and right and z3.is_string_value(parts[-1]):
        t = _unescape(parts[-1]).rstrip(chars)
        if t:
            parts[-1] = z3.StringVal(t)
            break
        parts.pop()
    if not parts:
        return ''
    rest = z3.Concat(*parts) if len(parts) > 1 else parts[0]
    if not (left and c.feasible(z3.Or(*[z3.PrefixOf(x, rest) for x in chars]))) and not (right and c.feasible(z3.Or(*[z3.SuffixOf(x, rest) for x in chars]))):
        return mkstr(rest)
    s = SymStr(rest)
    key = ('strip', s.z.get_id(), ''.join(sorted(set(chars))), left, right)
    if key not in c.objs:
        a, r, b = (z3.String(c.fresh_name(n)) for n in ('strip.a', 'strip', 'strip.b'))
        X = z3.Re(chars[0]) if len(chars) == 1 else z3.Union(*[z3.Re(x) for x in chars])
        S = z3.Star(X)
        c.solver.add(s.z == z3.Concat(a, r, b), z3.InRe(a, S) if left else a == '', z3.InRe(b, S) if right else b == '')
        A = z3.Full(z3.ReSort(z3.StringSort()))
        if left:
            c.solver.add(z3.Not(z3.InRe(r, z3.Concat(X, A))))
        if right:
            c.solver.add(z3.Not(z3.InRe(r, z3.Concat(A, X))))
        if left and right:
            c.solver.add(z3.Implies(r == '', b == ''))
        c.objs[key] = (SymStr(r), s)
    return c.objs[key][0]


class SymBytes(Sym):
    """utf-8 encoding of a text; decode() is its inverse."""
    __slots__ = ('text',)
    def __init__(self, text):
        self.text = text
    def decode(self, *a):
        return self.text
    def __bool__(self):
        return True
    def __repr__(self):
        return f'bytes({self.text!r})'
    def __eq__(self, o):
        return isinstance(o, SymBytes) and veq(self.text, o.text)
    __hash__ = Sym.__hash__


# ----------------------------------------------------------------------------------- time

class TimeBase:
    """isinstance target replacing datetime.datetime"""


class SymTime(Sym, TimeBase):
    """A point in time: mathematical real seconds; `aware` is tracked as in CPython."""
    __slots__ = ('z', 'aware', 'elsewhere')
    def __init__(self, z, aware=False, elsewhere=False):
        self.z, self.aware, self.elsewhere = z, aware, elsewhere
    def astimezone(self, tz=None):
        if tz is not None:
            raise Unsupported('astimezone(tz)')
        return SymTime(self.z, True)
    @property
    def tzinfo(self):
        return Opaque('timezone') if self.aware else None
    def wall(self):
        """What the clock shows at that time in the zone of the value (z: in local time)."""
        return uf('clock_elsewhere', z3.RealSort(), z3.RealSort())(self.z) if self.elsewhere else self.z
    def replace(self, **k):
        if set(k) == {'tzinfo'} and k['tzinfo'] is None:
            return SymTime(self.wall(), False)
        raise Unsupported('datetime.replace')
    def _other(self, o):
        if isinstance(o, Opt):
            o = o.force()
        if not isinstance(o, SymTime):
            return None
        if o.aware != self.aware:
            raise TypeError("can't subtract/compare offset-naive and offset-aware datetimes")
        return o.z
    def __sub__(self, o):
        if isinstance(o, SymDelta):
            return SymTime(self.z - o.z, self.aware)
        b = self._other(o)
        return NotImplemented if b is None else SymDelta(self.z - b)
    def __add__(self, o):
        return SymTime(self.z + o.z, self.aware) if isinstance(o, SymDelta) else NotImplemented
    def _cmp(self, o, f):
        b = self._other(o)
        return NotImplemented if b is None else SymBool(f(self.z, b))
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o): return SymBool(self.z == o.z) if isinstance(o, SymTime) else False
    def __ne__(self, o): return SymBool(self.z != o.z) if isinstance(o, SymTime) else True
    __hash__ = Sym.__hash__
    def __bool__(self): return True
    def isoformat(self, sep='T', timespec='auto'):
        if timespec not in ('auto', 'microseconds'):
            t = SymTime(uf('truncate_' + str(timespec), z3.RealSort(), z3.RealSort())(self.z), self.aware)
            return IsoText(t)
        return IsoText(self)
    def __str__(self):
        return f'<time {self.z}>'
    def __repr__(self):
        return f'<time {self.z}>'
    def timestamp(self):
        return SymReal(self.z)


class IsoText(SymStr):
    """The text isoformat() of a time; fromisoformat() is its inverse (assumed of CPython)."""
    __slots__ = ('time',)
    def __init__(self, time):
        super().__init__(uf('py_isoformat', z3.RealSort(), z3.StringSort())(time.z))
        self.time = time
    def vc_len(self):
        ctx().assume(z3.Length(self.z) >= 19)
        return SymInt(z3.Length(self.z))


class SymDelta(Sym):
    __slots__ = ('z',)
    def __init__(self, z):
        self.z = z
    def total_seconds(self):
        return SymReal(toreal(self.z))
    @property
    def seconds(self):
        raise Unsupported('timedelta.seconds')
    def _o(self, o):
        if isinstance(o, SymDelta):
            return o.z
        import datetime as _dt
        if isinstance(o, _dt.timedelta):
            return znum(o.total_seconds())
        return None
    def _cmp(self, o, f):
        b = self._o(o)
        return NotImplemented if b is None else SymBool(f(self.z, b))
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o): return False if self._o(o) is None else SymBool(self.z == self._o(o))
    def __ne__(self, o): return True if self._o(o) is None else SymBool(self.z != self._o(o))
    __hash__ = Sym.__hash__
    def __bool__(self): return ctx().branch(self.z != 0)
    def __add__(self, o): return SymDelta(self.z + self._o(o)) if self._o(o) is not None else NotImplemented
    def __sub__(self, o): return SymDelta(self.z - self._o(o)) if self._o(o) is not None else NotImplemented
    def __mul__(self, o): return SymDelta(self.z * znum(o))
    __rmul__ = __mul__
    def __truediv__(self, o):
        if isinstance(o, SymDelta):
            return SymReal(toreal(self.z)) / SymReal(toreal(o.z))
        return SymDelta(toreal(self.z) / toreal(znum(o)))
    def __repr__(self): return f'<delta {self.z}>'


class OffTime(SymTime):
    """An aware point in time with its own UTC offset (an uninterpreted value)."""
    __slots__ = ('off',)
    def __init__(self, z, off):
        super().__init__(z, True)
        self.off = off


class Opt(Sym):
    """A nullable scalar whose presence is decided only when the code depends on it."""
    __slots__ = ('null', 'v', 'fixed')
    def __init__(self, null, v):
        self.null, self.v, self.fixed = null, v, None
    def force(self):
        if ctx().branch(self.null, 'is None'):
            return None
        return self.v
    def vc_is(self, o):
        if o is None:
            return SymBool(self.null)
        return self is o
    def vc_isinstance(self, t):
        from . import runtime
        a, b = runtime.b_isinstance(None, t), runtime.b_isinstance(self.v, t)
        if not isinstance(a, bool) or not isinstance(b, bool):
            raise Unsupported('isinstance of a nullable value')
        if a == b:
            return a
        return SymBool(self.null if a else z3.Not(self.null))
    def vc_len(self):
        from . import runtime
        return runtime.b_len(self.force())
    def vc_str(self):
        from . import runtime
        return runtime.b_str(self.force())
    def __bool__(self):
        v = self.force()
        return bool(v)
    def _ord(self, o, f):
        v = self.force()
        if v is None:
            raise TypeError('ordering of None')
        return f(v, o)
    def __lt__(self, o): return self._ord(o, lambda a, b: a < b)
    def __le__(self, o): return self._ord(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._ord(o, lambda a, b: a > b)
    def __ge__(self, o): return self._ord(o, lambda a, b: a >= b)
    def __eq__(self, o):
        if o is self:
            return True
        v = self.force()
        return v == o if v is not None else o is None
    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SymBool) else not r
    __hash__ = Sym.__hash__
    def __getattr__(self, a):
        if a.startswith('__') or a.startswith('vc_') or a.startswith('_'):
            raise AttributeError(a)
        return getattr(self.force(), a)
    def __repr__(self):
        return f'opt({self.v!r})'


class SymDatetime(TimeBase):
    """Replaces the `datetime` class in the instrumented modules."""
    def __new__(cls, *a, **k):
        raise Unsupported('datetime(...) constructor')
    @staticmethod
    def now(tz=None):
        return SymTime(clock_read(), tz is not None)
    @staticmethod
    def fromisoformat(text):
        if isinstance(text, Opt):
            text = text.force()
        if isinstance(text, IsoText):
            return text.time
        if isinstance(text, SymStr):
            c = ctx()
            okf = uf('is_iso_datetime', z3.StringSort(), z3.BoolSort())(text.z)
            if c.branch(okf, 'text-parses-as-time'):
                if c.env.get('iso zones') and c.branch(uf('is_iso_with_offset', z3.StringSort(), z3.BoolSort())(text.z), 'text-has-offset'):
                    return SymTime(uf('iso_value', z3.StringSort(), z3.RealSort())(text.z), True, True)
                return SymTime(uf('iso_value', z3.StringSort(), z3.RealSort())(text.z), False)
            raise ValueError('Invalid isoformat string')
        if isinstance(text, str):
            import datetime as _dt
            d = _dt.datetime.fromisoformat(text)
            raise Unsupported(f'concrete time {d}')
        raise TypeError('fromisoformat: argument must be str')


class SymTimedelta:
    """Replaces the `timedelta` class."""
    def __new__(cls, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        tot = None
        for v, m in ((days, 86400), (seconds, 1), (minutes, 60), (hours, 3600), (weeks, 604800)):
            z = znum(v)
            if z is None:
                raise TypeError('unsupported type for timedelta')
            tot = z * m if tot is None else tot + z * m
        for v, d in ((milliseconds, 1000), (microseconds, 1000000)):
            tot = toreal(tot) + toreal(znum(v)) / d
        return SymDelta(z3.simplify(toreal(tot)))


def clock_read():
    """Next reading of the (monotone) clock."""
    c = ctx()
    t = z3.Real(c.fresh_name('now'))
    if c.now_last is not None:
        c.solver.add(t >= c.now_last)
    c.now_last = t
    c.env.setdefault('clock_reads', []).append(t)
    return t


def clock_now():
    """Current ghost time (a lower bound of all later readings)."""
    return clock_read()


# ----------------------------------------------------------------------------------- records

SORTS = {'int': z3.IntSort, 'bool': z3.BoolSort, 'str': z3.StringSort, 'real': z3.RealSort, 'time': z3.RealSort}


def mkval(sort, name, aware=True):
    if sort == 'int':
        return SymInt(z3.Int(name))
    if sort == 'bool':
        return SymBool(z3.Bool(name))
    if sort == 'str':
        return SymStr(z3.String(name))
    if sort == 'real':
        return SymReal(z3.Real(name))
    if sort == 'time':
        return SymTime(z3.Real(name), aware)
    if sort == 'naive':
        return SymTime(z3.Real(name), False)
    if sort == 'tag':
        return Opaque(name)
    raise Unsupported(f'sort {sort}')


class Opaque(Sym):
    """An uninterpreted immutable value (compared by identity of its name)."""
    __slots__ = ('name',)
    def __init__(self, name):
        self.name = name
    def __eq__(self, o):
        return isinstance(o, Opaque) and o.name == self.name
    def __ne__(self, o):
        return not self.__eq__(o)
    __hash__ = Sym.__hash__
    def __bool__(self):
        return ctx().branch(z3.Bool(f'nonempty({self.name})'))
    def __repr__(self):
        return f'opaque({self.name})'


def fresh(sort, base):
    return mkval(sort, ctx().fresh_name(base))


class Record(Sym):
    """Lazily initialised symbolic record.  Class attribute `schema`: attr -> sort; a leading '?'
    marks a nullable attribute, whose presence is decided when it is first read."""
    schema = {}

    def __init__(self, name, **init):
        d = self.__dict__
        d['_name'] = name
        d['_vals'] = dict(init)
        d['_writes'] = []
        d['_init'] = {}

    def __getattr__(self, a):
        d = self.__dict__
        if a.startswith('__'):
            raise AttributeError(a)
        if a in d['_vals']:
            return d['_vals'][a]
        if a in self.schema:
            v = self._lazy(a)
            cap = core.CUR.capture if core.CUR is not None else None
            if cap is not None and id(self) not in cap.local:
                cap.undo.append((self, a))
            d['_vals'][a] = v
            d['_init'][a] = v
            return v
        raise AttributeError(f'{type(self).__name__} has no attribute {a!r}')

    def _lazy(self, a):
        s = self.schema[a]
        nm = f'{self._name}.{a}'
        if s.startswith('?'):
            if ctx().branch(z3.Bool(nm + '.null'), f'{nm} is None'):
                return None
            s = s[1:]
        return mkval(s, nm)

    def __setattr__(self, a, v):
        d = self.__dict__
        cap = core.CUR.capture if core.CUR is not None else None
        if cap is not None and id(self) not in cap.local:
            if all(self is not e for e in cap.elements):
                raise Unsupported(f'write to {self._name}.{a} inside a summarised loop')
            cap.gwrites[id(self), a] = v
            cap.oldvals.append((self, a, a in d['_vals'], d['_vals'].get(a), list(d['_writes'])))
        d['_vals'][a] = v
        d['_writes'].append(a)

    def __bool__(self):
        return True

    def __eq__(self, o):
        return self is o
    def __ne__(self, o):
        return self is not o
    __hash__ = object.__hash__

    def __repr__(self):
        return f'{type(self).__name__}({self._name})'

    def written(self):
        return {a: self._vals[a] for a in self._writes if not (a in self._init and self._init[a] is self._vals[a])}

    def freeze(self):
        """Immutable view of the current contents: (name, overrides)."""
        return Frozen(self, self.written())


class Frozen(Sym):
    """Contents of a record at one moment."""
    def __init__(self, rec, over):
        self.rec, self.over = rec, dict(over)
    def get(self, a):
        return self.over[a] if a in self.over else self.rec._init.get(a, self.rec._vals.get(a)) if a in self.rec._init else getattr(self.rec, a)
    def __repr__(self):
        return f'{self.rec._name}{self.over if self.over else ""}'
    __hash__ = object.__hash__
    def __eq__(self, o):
        return isinstance(o, Frozen) and bool_of(veq(self, o))


# ----------------------------------------------------------------------------------- equality

def veq(a, b):
    """Structural equality as bool or z3 Bool (no forking)."""
    if a is b:
        return True
    if isinstance(a, Opt) or isinstance(b, Opt):
        na, xa = (a.null, a.v) if isinstance(a, Opt) else (z3.BoolVal(a is None), a)
        nb, xb = (b.null, b.v) if isinstance(b, Opt) else (z3.BoolVal(b is None), b)
        if xa is None or xb is None:
            return z3.And(na, nb)
        e = veq(xa, xb)
        e = z3.BoolVal(e) if isinstance(e, bool) else e
        return z3.And(na == nb, z3.Or(na, e))
    if isinstance(a, Frozen) and isinstance(b, Record):
        b = Frozen(b, {})
    elif isinstance(b, Frozen) and isinstance(a, Record):
        a = Frozen(a, {})
    if isinstance(a, Frozen) and isinstance(b, Frozen):
        if a.rec is not b.rec:
            # same record read twice has the same name
            if a.rec._name != b.rec._name:
                return False
        keys = set(a.over) | set(b.over)
        return conj(attr_eq(a, b, k) for k in keys)
    if isinstance(a, Wrapped) and isinstance(b, Wrapped):
        return a.kind == b.kind and veq(a.value, b.value)
    if isinstance(a, (SymSeq,)) and isinstance(b, (SymSeq,)):
        return seq_eq(a, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and not isinstance(a, SymSeq) and not isinstance(b, SymSeq):
        return len(a) == len(b) and conj(veq(x, y) for x, y in zip(a, b))
    if isinstance(a, SymSeq) or isinstance(b, SymSeq):
        return seq_eq(as_seq(a), as_seq(b)) if _seqlike(a) and _seqlike(b) else False
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and conj(veq(a[k], b[k]) for k in a)
    if isinstance(a, SymBytes) and isinstance(b, SymBytes):
        return veq(a.text, b.text)
    if isinstance(a, SymTime) or isinstance(b, SymTime):
        return z3.simplify(a.z == b.z) if isinstance(a, SymTime) and isinstance(b, SymTime) else False
    if isinstance(a, SymDelta) and isinstance(b, SymDelta):
        return a.z == b.z
    if isinstance(a, Record) or isinstance(b, Record):
        return isinstance(a, Record) and isinstance(b, Record) and a._name == b._name
    if isinstance(a, Sym) or isinstance(b, Sym):
        r = (a == b) if isinstance(a, Sym) else (b == a)
        if isinstance(r, SymBool):
            return r.z
        return bool(r)
    return type(a) == type(b) and a == b if not (isinstance(a, (int, float)) and isinstance(b, (int, float))) else a == b


def attr_eq(a, b, k):
    va, vb = a.over.get(k, _ABSENT), b.over.get(k, _ABSENT)
    if va is not _ABSENT and vb is not _ABSENT:
        return veq(va, vb)
    na, xa = raw(a, k)
    nb, xb = raw(b, k)
    if xa is None and xb is None:
        if z3.is_false(z3.simplify(na)) and z3.is_false(z3.simplify(nb)):
            return veq(a.get(k), b.get(k))
        return na == nb
    if xa is None or xb is None:
        return z3.And(na, nb)
    if xa.sort() != xb.sort():
        return z3.And(na, nb)
    return z3.And(na == nb, z3.Or(na, xa == xb))


_ABSENT = object()


def conj(it):
    out = []
    for x in it:
        if isinstance(x, bool):
            if not x:
                return False
        else:
            out.append(x)
    if not out:
        return True
    return z3.And(*out) if len(out) > 1 else out[0]


def bool_of(x):
    return x if isinstance(x, bool) else ctx().branch(x)


class Wrapped(Sym):
    """Application of a contract function (e.g. pack) to a value."""
    __slots__ = ('kind', 'value')
    def __init__(self, kind, value):
        self.kind, self.value = kind, value
    def __repr__(self):
        return f'{self.kind}({self.value!r})'
    def __bool__(self):
        return True
    def __eq__(self, o):
        return isinstance(o, Wrapped) and bool_of(veq(self, o))
    __hash__ = object.__hash__
    def decode(self, *a):
        raise Unsupported(f'decoding {self.kind}')


# ----------------------------------------------------------------------------------- sequences

class Unit:
    __slots__ = ('v',)
    def __init__(self, v):
        self.v = v
    def __repr__(self):
        return f'{self.v!r}'


class Var:
    """An arbitrary sequence: name, length, generic element, factory for further elements."""
    __slots__ = ('name', 'n', 'mk', '_gen')
    def __init__(self, name, mk):
        self.name = name
        self.n = z3.Int(f'len({name})')
        self.mk = mk
        self._gen = None
        ctx().solver.add(self.n >= 0)
        if ('gen', name) not in ctx().objs:
            ctx().objs[('gen', name)] = mk(f'{name}[*]')
    @property
    def gen(self):
        c = ctx()
        key = ('gen', self.name)
        if key not in c.objs:
            c.objs[key] = self.mk(f'{self.name}[*]')
        return c.objs[key]
    def __repr__(self):
        return f'{self.name}..'


class Map:
    """Element-wise image of a Var: branches [(cond over generic element, [values])]."""
    __slots__ = ('var', 'branches')
    def __init__(self, var, branches):
        self.var, self.branches = var, branches
    def __repr__(self):
        return f'map({self.var.name}: {self.branches})'


def as_seq(x):
    if isinstance(x, SymSeq):
        return x
    if isinstance(x, (list, tuple)):
        return SymSeq([Unit(v) for v in x])
    raise Unsupported(f'not a sequence: {type(x)}')


def _seqlike(x):
    return isinstance(x, (SymSeq, list, tuple))


def norm(segs):
    c = ctx()
    out = []
    for s in segs:
        if isinstance(s, Var) and s.name in c.splits:
            out.extend(norm(c.splits[s.name]))
        elif isinstance(s, Map):
            if s.var.name in c.splits:
                for t in c.splits[s.var.name]:
                    out.extend(norm(_map_over(s, t)))
            elif len(s.branches) == 1 and len(s.branches[0][1]) == 1 and s.branches[0][1][0] is s.var.gen:
                out.append(s.var)
            elif all(len(vs) == 0 for _, vs in s.branches):
                pass
            else:
                out.append(s)
        else:
            out.append(s)
    return out


def _map_over(m, t):
    """Image under m of segment t, where t is part of the split of m.var."""
    if isinstance(t, Var):
        g, h = m.var.gen, t.gen
        return [Map(t, [(subst(cnd, g, h), [subst(v, g, h) for v in vs]) for cnd, vs in m.branches])]
    g, h = m.var.gen, t.v
    for i, (cnd, vs) in enumerate(m.branches):
        cz = subst(cnd, g, h)
        last = i == len(m.branches) - 1
        if last or ctx().branch(cz):
            return [Unit(subst(v, g, h)) for v in vs]
    return []


def subst(v, g, h):
    """Replace the generic element g by element h in a value."""
    if v is g:
        return h
    if isinstance(v, bool) or v is None or isinstance(v, (int, str, float, bytes)):
        return v
    if isinstance(v, z3.ExprRef):
        pairs = _pairs(g, h)
        return z3.substitute(v, *pairs) if pairs else v
    if isinstance(v, Scalar):
        r = subst(v.z, g, h)
        if isinstance(v, IsoText):
            return IsoText(subst(v.time, g, h))
        return type(v)(r)
    if isinstance(v, SymTime):
        return SymTime(subst(v.z, g, h), v.aware)
    if isinstance(v, Frozen):
        if v.rec is g:
            return Frozen(h, {k: subst(x, g, h) for k, x in v.over.items()}) if isinstance(h, Record) else _no(v)
        return Frozen(v.rec, {k: subst(x, g, h) for k, x in v.over.items()})
    if isinstance(v, Wrapped):
        return Wrapped(v.kind, subst(v.value, g, h))
    if isinstance(v, SymSeq):
        return v.__class__([Unit(subst(s.v, g, h)) if isinstance(s, Unit) else s for s in v.segs])
    if isinstance(v, (list, tuple)):
        return type(v)(subst(x, g, h) for x in v)
    if isinstance(v, dict):
        return {k: subst(x, g, h) for k, x in v.items()}
    if isinstance(v, Opaque):
        if isinstance(g, Record) and v.name.startswith(g._name + '.'):
            return getattr(h, v.name[len(g._name) + 1:])
        return v
    if isinstance(v, Record):
        return v
    raise Unsupported(f'substitution in {type(v)}')


def _no(v):
    raise Unsupported('substitution')


def _index_of(e, var):
    """Is e the position of the generic element of var (plus a constant shared by all elements)?"""
    idx = z3.Int(f'{var.name}.index')
    d = z3.simplify(e - idx)
    return not any(z3.eq(idx, x) for x in _leaves(d))


def _leaves(e):
    if e.num_args() == 0:
        return [e]
    return [x for k in e.children() for x in _leaves(k)]


def _pairs(g, h):
    if isinstance(g, Scalar) and isinstance(h, (Scalar, str, int)):
        return [(g.z, h.z if isinstance(h, Scalar) else (zstr(h) if isinstance(h, str) else znum(h)))]
    if isinstance(g, Record) and isinstance(h, Record):
        out = []
        for a, s in g.schema.items():
            nul = s.startswith('?')
            s = s.lstrip('?')
            if nul:
                out.append((z3.Bool(f'{g._name}.{a}.null'), z3.Bool(f'{h._name}.{a}.null')))
            if s in SORTS or s == 'naive':
                k = SORTS['time' if s == 'naive' else s]()
                out.append((z3.Const(f'{g._name}.{a}', k), z3.Const(f'{h._name}.{a}', k)))
        return out
    return []


def seq_eq(a, b):
    """Equality of two sequences by aligned segments.  Returns True/False/z3 condition.
    False means "not shown equal by alignment and provably or structurally different"."""
    x, y = norm(as_seq(a).segs), norm(as_seq(b).segs)
    x, y = _drop_empty(x), _drop_empty(y)
    conds = []
    i = 0
    while x and y:
        s, t = x[0], y[0]
        if isinstance(s, Unit) and isinstance(t, Unit):
            conds.append(veq(s.v, t.v))
        elif isinstance(s, Var) and isinstance(t, Var) and s.name == t.name:
            pass
        elif isinstance(s, (Map, Var)) and isinstance(t, (Map, Var)) and _base(s).name == _base(t).name:
            conds.append(map_eq(s, t))
        else:
            return _mismatch(x, y)
        x, y = x[1:], y[1:]
    if x or y:
        return _mismatch(x, y)
    return conj(conds)


def _base(s):
    return s if isinstance(s, Var) else s.var


def _drop_empty(segs):
    c = ctx()
    out = []
    for s in segs:
        if isinstance(s, (Var, Map)):
            n = _base(s).n
            if not c.feasible(n > 0):
                continue
        out.append(s)
    return out


def _mismatch(x, y):
    # left-over or unaligned segments: different unless all remaining are possibly empty
    return False


def map_eq(s, t):
    """Pointwise equality for a generic element (under non-emptiness of the base)."""
    bs = s.branches if isinstance(s, Map) else [(z3.BoolVal(True), [s.gen])]
    bt = t.branches if isinstance(t, Map) else [(z3.BoolVal(True), [t.gen])]
    out = []
    for ca, va in bs:
        for cb, vb in bt:
            g = z3.And(core.as_z3_bool2(ca), core.as_z3_bool2(cb))
            if z3.is_false(z3.simplify(g)):
                continue
            if len(va) != len(vb):
                out.append(z3.Not(g))
                continue
            e = conj(veq(p, q) for p, q in zip(va, vb))
            if e is True:
                continue
            out.append(z3.Not(g) if e is False else z3.Implies(g, e))
    return conj(out) if out else True


def _count(m, ks):
    """Number of elements of a Map whose branches have different lengths.  Two images of the same
    sequence keeping the same elements have the same length."""
    c = ctx()
    if ks == {0, 1}:
        cond = z3.simplify(z3.Or([core.as_z3_bool2(cnd) for cnd, vs in m.branches if len(vs) == 1]))
        known = c.objs.setdefault(('counts', m.var.name), [])
        for other, v in known:
            if z3.eq(cond, other) or not c.feasible(z3.And(m.var.n > 0, cond != other)):
                return v
        v = z3.Int(c.fresh_name(f'len(map {m.var.name})'))
        c.solver.add(v >= 0, v <= m.var.n)
        known.append((cond, v))
        return v
    key = ('mlen', m.var.name, repr(m.branches))
    if key not in c.objs:
        v = z3.Int(c.fresh_name(f'len(map {m.var.name})'))
        c.solver.add(v >= min(ks) * m.var.n, v <= max(ks) * m.var.n)
        c.objs[key] = v
    return c.objs[key]


class SymSeq(list):
    """Replacement of `list` for symbolic contents: a concatenation of segments.
    While every segment is a Unit the object behaves exactly like the native list."""

    def __init__(self, segs=(), elems=None):
        super().__init__()
        if elems is not None:
            self.segs = [Unit(v) for v in elems]
        else:
            self.segs = list(segs)
        self._sync()

    # -- plumbing
    def _sync(self):
        if all(isinstance(s, Unit) for s in self.segs):
            list.__init__(self, [s.v for s in self.segs])
            self.symbolic = False
        else:
            list.__init__(self, [])
            self.symbolic = True

    def _norm(self):
        if self.symbolic:
            self.segs = norm(self.segs)
            self._sync()
        return self

    def _set(self, segs):
        cap = core.CUR.capture if core.CUR is not None else None
        if cap is not None and id(self) not in cap.local:
            raise Unsupported('write to an outer list inside a summarised loop')
        self.segs = list(segs)
        self._sync()

    @property
    def concrete(self):
        self._norm()
        return not self.symbolic

    def zlen(self):
        self._norm()
        tot = z3.IntVal(0)
        for s in self.segs:
            if isinstance(s, Unit):
                tot = tot + 1
            elif isinstance(s, Var):
                tot = tot + s.n
            else:
                ks = {len(vs) for _, vs in s.branches}
                if len(ks) == 1:
                    tot = tot + ks.pop() * s.var.n
                else:
                    tot = tot + _count(s, ks)
        return z3.simplify(tot)

    def vc_len(self):
        return mknum(self.zlen())

    def __len__(self):
        if self.concrete:
            return list.__len__(self)
        n = self.vc_len()
        if isinstance(n, int):
            return n
        raise Unsupported('len() of a symbolic list outside the instrumented code')

    def __bool__(self):
        if self.concrete:
            return list.__len__(self) > 0
        return ctx().branch(self.zlen() > 0, 'nonempty')

    def __iter__(self):
        if self.concrete:
            return list.__iter__(self)
        raise Unsupported('native iteration over a symbolic list')

    def __reversed__(self):
        if self.concrete:
            return list.__reversed__(self)
        raise Unsupported('reversed symbolic list')

    def __eq__(self, o):
        if not _seqlike(o):
            return False
        r = seq_eq(self, as_seq(o))
        return r if isinstance(r, bool) else SymBool(r)
    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(z3.Not(r.z)) if isinstance(r, SymBool) else not r
    __hash__ = None

    def __contains__(self, v):
        if self.concrete:
            return any(bool_of(veq(s.v, v)) for s in self.segs)
        raise Unsupported('in symbolic list')

    def vc_contains(self, v):
        if self.concrete:
            return self.__contains__(v)
        c = ctx()
        z = znum(v) if isinstance(v, (int, SymInt)) else None
        for s in self.segs:
            if isinstance(s, Unit):
                if bool_of(veq(s.v, v)):
                    return True
                continue
            if isinstance(s, Var):
                if isinstance(v, Record) and getattr(type(v), 'vc_identity', False):
                    if v is s.gen:
                        return True          # the generic element of this very segment
                    raise Unsupported('identity in a symbolic list')
                raise Unsupported('in symbolic list')
            for cnd, vs in s.branches:
                for x in vs:
                    if z is not None and isinstance(x, (int, SymInt)):
                        e = znum(x)
                        if not c.feasible(z3.And(cnd, e == z)):
                            continue         # for no element of the segment
                        if z3.eq(z3.simplify(e), z3.simplify(z)) and _index_of(e, s.var):
                            # positions are distinct: only the generic element itself can match
                            if c.branch(cnd, 'member'):
                                return True
                            continue
                        raise Unsupported('in symbolic list')
                    if isinstance(x, Record) and x is v and getattr(type(v), 'vc_identity', False):
                        if c.branch(cnd, 'member'):
                            return True
                        continue
                    raise Unsupported('in symbolic list')
        return False

    def __repr__(self):
        return 'seq' + repr(self.segs)

    def vc_append_segs(self, segs):
        self._set(self.segs + list(segs))

    # -- operations
    def append(self, v):
        cap = core.CUR.capture if core.CUR is not None else None
        if cap is not None and id(self) not in cap.local:
            cap.record(self, [v])
            return
        self._set(self.segs + [Unit(v)])

    def extend(self, it):
        cap = core.CUR.capture if core.CUR is not None else None
        if cap is not None and id(self) not in cap.local:
            s = as_seq(it if isinstance(it, (list, tuple)) else list(it))
            if not s.concrete:
                raise Unsupported('nested symbolic extend')
            cap.record(self, [u.v for u in s.segs])
            return
        self._set(self.segs + as_seq(it if isinstance(it, (list, tuple)) else list(it)).segs)

    def __iadd__(self, it):
        self.extend(it)
        return self

    def __add__(self, o):
        return SymSeq(self.segs + as_seq(o).segs)

    def __radd__(self, o):
        return SymSeq(as_seq(o).segs + self.segs)

    def __mul__(self, k):
        if self.concrete:
            return SymSeq(self.segs * k)
        raise Unsupported('list repetition')

    def clear(self):
        self._set([])

    def copy(self):
        return SymSeq(self.segs)

    def insert(self, i, v):
        if i == 0:
            self._set([Unit(v)] + self.segs)
        elif self.concrete:
            s = list(self.segs)
            s.insert(i, Unit(v))
            self._set(s)
        else:
            raise Unsupported('insert into symbolic list')

    def _split_front(self):
        """Make the first segment a Unit; False if empty."""
        c = ctx()
        while True:
            self._norm()
            if not self.segs:
                return False
            s = self.segs[0]
            if isinstance(s, Unit):
                return True
            v = _base(s)
            if c.branch(v.n == 0, f'{v.name} empty'):
                c.splits[v.name] = []
            else:
                h = v.mk(c.fresh_name(f'{v.name}.head'))
                t = Var(c.fresh_name(f'{v.name}.tail'), v.mk)
                c.solver.add(v.n == t.n + 1)
                carry(v.gen, h)
                carry(v.gen, t.gen)
                c.splits[v.name] = [Unit(h), t]

    def _split_back(self):
        c = ctx()
        while True:
            self._norm()
            if not self.segs:
                return False
            s = self.segs[-1]
            if isinstance(s, Unit):
                return True
            v = _base(s)
            if c.branch(v.n == 0, f'{v.name} empty'):
                c.splits[v.name] = []
            else:
                h = v.mk(c.fresh_name(f'{v.name}.last'))
                t = Var(c.fresh_name(f'{v.name}.init'), v.mk)
                c.solver.add(v.n == t.n + 1)
                carry(v.gen, h)
                carry(v.gen, t.gen)
                c.splits[v.name] = [t, Unit(h)]

    def pop(self, i=-1):
        if self.concrete:
            s = list(self.segs)
            r = s.pop(i)
            self._set(s)
            return r.v
        if i == 0:
            if not self._split_front():
                raise IndexError('pop from empty list')
            r = self.segs[0].v
            self._set(self.segs[1:])
            return r
        if i == -1:
            if not self._split_back():
                raise IndexError('pop from empty list')
            r = self.segs[-1].v
            self._set(self.segs[:-1])
            return r
        raise Unsupported('pop at inner index')

    def popleft(self):
        return self.pop(0)

    def __getitem__(self, i):
        if self.concrete:
            r = list.__getitem__(self, i)
            return SymSeq(elems=r) if isinstance(i, slice) else r
        if i == 0:
            if not self._split_front():
                raise IndexError('list index out of range')
            return self.segs[0].v
        if i == -1:
            if not self._split_back():
                raise IndexError('list index out of range')
            return self.segs[-1].v
        if isinstance(i, slice) and i == slice(None):
            return self.copy()
        if isinstance(i, slice) and i.start == 1 and i.stop is None and i.step is None:
            if not self._split_front():
                return SymSeq([])
            return SymSeq(self.segs[1:])
        raise Unsupported('indexing a symbolic list')

    def __setitem__(self, i, v):
        if isinstance(i, slice) and i == slice(None):
            self._set(as_seq(v).segs)
            return
        if self.concrete:
            s = [u.v for u in self.segs]
            s[i] = v
            self._set([Unit(x) for x in s])
            return
        raise Unsupported('assignment into symbolic list')

    def __delitem__(self, i):
        if isinstance(i, slice) and i == slice(None):
            self._set([])
            return
        if i == 0:
            self.pop(0)
            return
        if self.concrete:
            s = list(self.segs)
            del s[i]
            self._set(s)
            return
        raise Unsupported('del in symbolic list')

    def index(self, *a): raise Unsupported('list.index')
    def remove(self, *a): raise Unsupported('list.remove')
    def count(self, *a): raise Unsupported('list.count')
    def sort(self, *a, **k):
        if self.concrete:
            s = [u.v for u in self.segs]
            s.sort(*a, **k)
            self._set([Unit(x) for x in s])
            return
        raise Unsupported('sorting a symbolic list')
    def reverse(self):
        if self.concrete:
            self._set(self.segs[::-1])
            return
        raise Unsupported('list.reverse')


def seqvar(name, mk):
    """A fresh arbitrary sequence."""
    v = Var(ctx().fresh_name(name), mk)
    return SymSeq([v])


def carry(g, h):
    """Writes performed on the generic element hold for every element."""
    if isinstance(g, Record):
        for a, v in g.written().items():
            h.__dict__['_vals'][a] = subst(v, g, h)
            h.__dict__['_writes'].append(a)


def raw(rec, a):
    """(null condition, z3 term) of a record attribute, without deciding nullness."""
    over = None
    if isinstance(rec, Frozen):
        over, rec = rec.over, rec.rec
    d = rec.__dict__
    has, v = False, None
    if over is not None:
        if a in over:
            has, v = True, over[a]
        elif a in d['_init']:
            has, v = True, d['_init'][a]
    elif a in d['_vals']:
        has, v = True, d['_vals'][a]
    if has:
        if v is None:
            return z3.BoolVal(True), None
        return z3.BoolVal(False), zterm(v)
    s = rec.schema[a]
    null = z3.Bool(f'{rec._name}.{a}.null') if s.startswith('?') else z3.BoolVal(False)
    s = s.lstrip('?')
    if s in SORTS or s == 'naive':
        return null, z3.Const(f'{rec._name}.{a}', SORTS['time' if s == 'naive' else s]())
    return null, None


def zterm(v):
    if isinstance(v, (SymTime, SymDelta)):
        return v.z
    if isinstance(v, Scalar):
        return v.z
    if isinstance(v, str):
        return z3.StringVal(v)
    if isinstance(v, bool):
        return z3.BoolVal(v)
    n = znum(v)
    if n is not None:
        return n
    return None


class SymDict(dict):
    """A dictionary with finitely many entries whose keys may be symbolic texts."""
    def __init__(self, pairs=()):
        super().__init__()
        self.pairs = []
        for k, v in pairs:
            self[k] = v
    def _find(self, k):
        for i, (q, _) in enumerate(self.pairs):
            if q is k or bool_of(veq(q, k)):
                return i
        return None
    def __setitem__(self, k, v):
        i = self._find(k)
        if i is None:
            self.pairs.append((k, v))
        else:
            self.pairs[i] = (self.pairs[i][0], v)
    def __getitem__(self, k):
        i = self._find(k)
        if i is None:
            raise KeyError(k)
        return self.pairs[i][1]
    def __delitem__(self, k):
        i = self._find(k)
        if i is None:
            raise KeyError(k)
        del self.pairs[i]
    def get(self, k, d=None):
        i = self._find(k)
        return d if i is None else self.pairs[i][1]
    def pop(self, k, *d):
        i = self._find(k)
        if i is None:
            if d:
                return d[0]
            raise KeyError(k)
        return self.pairs.pop(i)[1]
    def update(self, o=(), **kw):
        for k, v in list(o.items() if hasattr(o, 'items') else o) + list(kw.items()):
            self[k] = v
    def setdefault(self, k, d=None):
        i = self._find(k)
        if i is None:
            self.pairs.append((k, d))
            return d
        return self.pairs[i][1]
    def items(self): return [(k, v) for k, v in self.pairs]
    def keys(self): return [k for k, _ in self.pairs]
    def values(self): return [v for _, v in self.pairs]
    def __iter__(self): return iter(self.keys())
    def __len__(self): return len(self.pairs)
    def __contains__(self, k): return self._find(k) is not None
    def vc_contains(self, k): return self._find(k) is not None
    def __bool__(self): return bool(self.pairs)
    def copy(self): return SymDict(self.pairs)
    def __or__(self, o):
        d = self.copy()
        d.update(o)
        return d
    def __repr__(self): return f'SymDict({self.pairs})'
    def __eq__(self, o):
        return veq_dict(self, o)
    __hash__ = None


def veq_dict(a, b):
    pa, pb = list(a.items()), list(b.items())
    if len(pa) != len(pb):
        return False
    for k, v in pa:
        for q, w in pb:
            if k is q or bool_of(veq(k, q)):
                if not bool_of(veq(v, w)):
                    return False
                break
        else:
            return False
    return True


class Capture:
    """Effects of one path of a generic loop body."""
    def __init__(self):
        self.local = set()      # ids of objects created inside the body
        self.keep = []
        self.effects = []       # (list, [values])
        self.undo = []          # lazily read attributes of outer records
        self.elements = []      # records of the element at hand: their attributes may be written
        self.gwrites = {}
        self.oldvals = []
        self.outer = None
    def record(self, target, vals):
        self.effects.append((target, vals))


def subexplore(fn):
    """All paths of fn() relative to the current path: list of (cond, value, effects).
    Decisions inside do not fork the outer path."""
    c = ctx()
    results = []
    stack = [[]]
    while stack:
        prefix = stack.pop()
        if len(results) > 64:
            raise Unsupported('too many paths in a loop body')
        saved = (c.prefix, c.taken, c.pending, c.capture, dict(c.counter), dict(c.splits), c.now_last, list(c.labels))
        c.solver.push()
        n0 = len(c.solver.assertions())
        c.prefix, c.taken, c.pending = prefix, [], []
        cap = Capture()
        c.capture = cap
        ok = True
        val = None
        try:
            val = fn(cap)
        except PathEnd:
            ok = False
        finally:
            conds = list(c.solver.assertions())[n0:]
            pend = c.pending
            for rec, a, had, old, writes in reversed(cap.oldvals):
                if had:
                    rec.__dict__['_vals'][a] = old
                else:
                    rec.__dict__['_vals'].pop(a, None)
                rec.__dict__['_writes'] = writes
            for rec, a in reversed(cap.undo):
                rec.__dict__['_vals'].pop(a, None)
                rec.__dict__['_init'].pop(a, None)
            (c.prefix, c.taken, c.pending, c.capture, counter, c.splits, c.now_last, c.labels) = saved
            c.solver.pop()
            # keep fresh names unique: do not restore counters downwards
        stack.extend(pend)
        if ok:
            cond = z3.simplify(z3.And(*conds)) if conds else z3.BoolVal(True)
            results.append((cond, val, cap))
    return results
