"""Symbolic dictionaries: an arbitrary number of entries with distinct keys, in insertion order.
Values are records that carry their own key (`key` attribute): value v is stored under v.<key>."""
import builtins
from . import core, runtime
from .core import z3, Unsupported, ctx
from .values import *
from .values import SymSeq, Unit, Var, Map, veq, carry, zstr, _base, subst

MISSING = object()


def absent(v):
    """Keys known not to occur in the sequence v."""
    return ctx().objs.setdefault(('absent', v.name), [])


class SymMap:
    def __init__(self, key, seq=(), mk_ok=None):
        self.key = key                      # attribute name of the value
        self.seq = SymSeq(builtins.list(seq))
        self.live = 0
        self.check = mk_ok                  # representation invariant of stored values
        self.out = _Out(self)

    # -- lookup
    def _k(self, v):
        z = zstr(getattr(v, self.key))
        if z is None:
            raise Unsupported('dictionary key is not text')
        return z

    def find(self, k):
        """Index of the segment holding key k (Unit), or None; decides presence."""
        c = ctx()
        z = zstr(k)
        if z is None:
            raise Unsupported('dictionary lookup by something else than text')
        self.seq._norm()
        segs = self.seq.segs
        for i, s in enumerate(segs):
            if isinstance(s, Unit):
                if c.branch(self._k(s.v) == z, 'known key'):
                    return i
                continue
            v = _base(s)
            gz = self._k(v.gen)
            if c.capture is not None and gz.eq(z):
                return i                    # the generic element of the loop looks itself up
            if c.capture is not None:
                raise Unsupported('lookup of a foreign key inside a summarised loop')
            if isinstance(s, Map):
                raise Unsupported('lookup after a partial removal')
            lack = absent(v)
            if any(z.eq(a) for a in lack):
                continue
            if c.choose([('known', v.n > 0), ('new', None)], 'key') == 0:
                pre, h, post = Var(c.fresh_name(f'{v.name}.pre'), v.mk), v.mk(c.fresh_name(f'{v.name}.at')), Var(c.fresh_name(f'{v.name}.post'), v.mk)
                c.solver.add(v.n == pre.n + 1 + post.n)
                for g in (pre.gen, h, post.gen):
                    carry(v.gen, g)
                c.splits[v.name] = [pre, Unit(h), post]
                c.solver.add(self._k(h) == z)
                for a in lack:
                    c.solver.add(self._k(h) != a)
                for p in (pre, post):
                    absent(p).extend(lack + [z])
                    for a in lack + [z]:
                        c.solver.add(self._k(p.gen) != a)
                if not c.feasible():
                    raise core.PathEnd('key is absent')
                return self.find(k)
            c.solver.add(gz != z)
            lack.append(z)
        return None

    def _removed_here(self, i):
        cap = ctx().capture
        if cap is None:
            return False
        return any(t is self.out for t, _ in cap.effects)

    def _get(self, k):
        i = self.find(k)
        if i is None or self._removed_here(i):
            return MISSING
        s = self.seq.segs[i]
        if isinstance(s, Unit):
            return s.v
        return _base(s).gen

    def _remove(self, k):
        i = self.find(k)
        if i is None or self._removed_here(i):
            return MISSING
        s = self.seq.segs[i]
        if self.live:
            ctx().prove('dictionary is not changed while it is iterated over', False)
        if isinstance(s, Unit):
            v = s.v
            cap = ctx().capture
            if cap is not None:
                raise Unsupported('removal of a foreign key inside a summarised loop')
            self.seq._set(self.seq.segs[:i] + self.seq.segs[i + 1:])
            return v
        g = _base(s).gen
        ctx().capture.record(self.out, [g])
        return g

    # -- dict interface
    def vc_contains(self, k):
        return self._get(k) is not MISSING
    def __contains__(self, k):
        return self.vc_contains(k)
    def __getitem__(self, k):
        v = self._get(k)
        if v is MISSING:
            raise KeyError(k)
        return v
    def get(self, k, d=None):
        v = self._get(k)
        return d if v is MISSING else v
    def pop(self, k, *d):
        v = self._remove(k)
        if v is MISSING:
            if d:
                return d[0]
            raise KeyError(k)
        return v
    def __delitem__(self, k):
        if self._remove(k) is MISSING:
            raise KeyError(k)
    def __setitem__(self, k, v):
        if not hasattr(v, self.key):
            raise Unsupported('stored value without its key')
        ctx().aux('stored under its own key', zstr(k) == self._k(v))
        if self.check:
            self.check(v)
        if ctx().capture is not None:
            raise Unsupported('dictionary write inside a summarised loop')
        i = self.find(k)
        segs = self.seq.segs
        if i is None:
            if self.live:
                ctx().prove('dictionary is not changed while it is iterated over', False)
            self.seq._set(segs + [Unit(v)])
        else:
            self.seq._set(segs[:i] + [Unit(v)] + segs[i + 1:])
    def setdefault(self, k, d):
        v = self._get(k)
        if v is MISSING:
            self[k] = d
            return d
        return v
    def vc_len(self):
        return self.seq.vc_len()
    def __len__(self):
        return len(self.seq)
    def __bool__(self):
        return bool(self.seq)
    def clear(self):
        self.seq._set([])
    def copy(self):
        m = SymMap(self.key, self.seq._norm().segs, self.check)
        return m
    def keys(self):
        return View(self, lambda v: getattr(v, self.key))
    def values(self):
        return View(self, lambda v: v)
    def items(self):
        return View(self, lambda v: (getattr(v, self.key), v))
    def vc_segs(self):
        return self.keys().vc_segs()
    def vc_iterating(self, on):
        self.live += 1 if on else -1
    def __iter__(self):
        if self.seq.concrete:
            return iter([getattr(v, self.key) for v in self.seq])
        raise Unsupported('native iteration over a symbolic dictionary')
    def __getattr__(self, a):
        raise Unsupported(f'dict.{a}')


class View:
    def __init__(self, m, f):
        self.m, self.f = m, f
    def vc_segs(self):
        return runtime.mapsegs(self.m.seq._norm().segs, self.f)
    def vc_iterating(self, on):
        self.m.vc_iterating(on)
    def vc_len(self):
        return self.m.vc_len()
    def vc_contains(self, x):
        raise Unsupported('membership in a view')
    def __iter__(self):
        if self.m.seq.concrete:
            return iter([self.f(v) for v in self.m.seq])
        raise Unsupported('native iteration over a symbolic view')


class _Out:
    """Removals performed by a summarised loop."""
    def __init__(self, m):
        self.m = m
    def vc_append_segs(self, segs):
        m = self.m
        for s in segs:
            if not isinstance(s, Map):
                raise Unsupported('removal')
            new = []
            for t in m.seq._norm().segs:
                if isinstance(t, Var) and t is s.var:
                    new.append(Map(t, [(c, [] if vs else [t.gen]) for c, vs in s.branches]))
                elif isinstance(t, Map) and t.var is s.var:
                    raise Unsupported('two partial removals')
                else:
                    new.append(t)
            m.seq._set(new)
