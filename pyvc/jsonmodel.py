"""Contract of json.dumps / json.loads (CPython): inverse of each other on JSON values with text keys."""
from .core import z3, Unsupported, ctx
from .values import *
from .values import Opt, SymSeq, Unit, Var, Map, IsoText
import datetime as _dt

CODECS = {'utf-8', 'utf8', 'UTF-8', 'ascii', 'latin-1'}


class JsonText(Sym):
    def __init__(self, value):
        self.value = value
    def encode(self, codec='utf-8', *a):
        if codec not in CODECS or a:
            raise Unsupported(f'encode({codec!r})')
        return JsonBytes(self.value)
    def __bool__(self):
        return True
    def __eq__(self, o):
        return isinstance(o, JsonText) and bool_of(veq(self.value, o.value))
    __hash__ = object.__hash__


class JsonBytes(Sym):
    def __init__(self, value):
        self.value = value
    def decode(self, codec='utf-8', *a):
        if codec not in CODECS or a:
            raise Unsupported(f'decode({codec!r})')
        return JsonText(self.value)
    def __bool__(self):
        return True
    def __eq__(self, o):
        return isinstance(o, JsonBytes) and bool_of(veq(self.value, o.value))
    __hash__ = object.__hash__


class JsonTag(Opaque):
    """A tag dictionary: text keys and JSON scalar values (C26)."""
    def vc_isinstance(self, t):
        return t in (dict, object)


def jsonable(v):
    if v is None or isinstance(v, (bool, int, float, str)) and not isinstance(v, Sym):
        return v
    if isinstance(v, (SymTime, SymDelta, _dt.datetime)):
        raise TypeError('Object of type datetime is not JSON serializable')
    if isinstance(v, Opt):
        try:
            jsonable(v.v)
        except TypeError:
            return jsonable(v.force())
        return v
    if isinstance(v, (SymStr, SymInt, SymReal, SymBool, JsonTag)):
        return v
    if isinstance(v, SymSeq):
        return frozen_values(v)
    if type(v) in (list, tuple):
        return [jsonable(x) for x in v]
    if type(v) is dict:
        if not all(type(k) is str for k in v):
            raise Unsupported('JSON object with other keys')
        return {k: jsonable(x) for k, x in v.items()}
    raise Unsupported(f'JSON encoding of {type(v)}')


def frozen_values(v):
    for s in v._norm().segs:
        if isinstance(s, Unit):
            jsonable(s.v)
        elif isinstance(s, Var):
            jsonable(s.gen)
        else:
            for _, vs in s.branches:
                for x in vs:
                    jsonable(x)
    return SymSeq(list(v._norm().segs))


def fresh_copy(v):
    if type(v) is dict:
        return {k: fresh_copy(x) for k, x in v.items()}
    if isinstance(v, SymSeq):
        return SymSeq(list(v._norm().segs))
    if type(v) is list:
        return [fresh_copy(x) for x in v]
    return v


class JsonModule:
    @staticmethod
    def dumps(v, **kw):
        if set(kw) - {'separators', 'indent', 'sort_keys'}:
            raise Unsupported(f'json.dumps options {sorted(kw)}')
        return JsonText(jsonable(v))
    @staticmethod
    def loads(t, **kw):
        if kw:
            raise Unsupported(f'json.loads options {sorted(kw)}')
        if not isinstance(t, (JsonText, JsonBytes)):
            raise Unsupported(f'json.loads of {type(t)}')
        return fresh_copy(t.value)
