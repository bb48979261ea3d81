"""Contract of the standard library module `re` on symbolic texts.

The pattern is the one in the code under contract; it is parsed by the standard library's own parser and
translated to a regular language of the string theory.  `match`/`fullmatch`/`search` succeed exactly on the
words of the corresponding language.  Groups at the top level of the pattern are decomposed; a repetition
is only decomposed where the leftmost-greedy (or lazy) choice is expressible: the alternatives are disjoint
from what follows, or what follows has a fixed length, or the continuation is closed under suffixes.
Everything else is Unsupported.  (Texts over U+0000..U+2FFFF, the alphabet of the solver.)"""
import re
try:
    import re._parser as sp
    import re._constants as sc
except ImportError:                                  # pragma: no cover
    import sre_parse as sp
    import sre_constants as sc
from . import core
from .core import z3, Unsupported
from .values import Sym, SymStr, SymInt, SymBool, mkstr, zstr

MAXCH = 0x2FFFF
RS = z3.ReSort(z3.StringSort())
ANY = z3.AllChar(RS)
ALL = z3.Full(RS)
EPS = z3.Re('')
_CAT = {}


def ch(n):
    return z3.Unit(z3.CharVal(n)) if False else z3.StringVal(chr(n))


# Beyond Latin-1 the classes digit, space and word character are represented by one block each (all other
# characters of a class behave alike under every pattern that only uses classes).
REPR = [(0x400, 0x44f), (0x660, 0x669), (0x2000, 0x200a)]


def category(pat):
    if pat not in _CAT:
        if pat.isupper() if pat[1:] in 'DSW' else False:
            _CAT[pat] = negate(category(pat.lower()))
            return _CAT[pat]
        f = re.compile(pat).match
        out, start = [], None
        for n in range(0x2100):
            ok = (n < 256 or any(a <= n <= b for a, b in REPR)) and f(chr(n)) is not None
            if ok and start is None:
                start = n
            if not ok and start is not None:
                out.append((start, n - 1))
                start = None
        _CAT[pat] = out
    return _CAT[pat]


def merge(rs):
    out = []
    for a, b in sorted(rs):
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return out


def negate(rs):
    out, p = [], 0
    for a, b in merge(rs):
        if a > p:
            out.append((p, a - 1))
        p = b + 1
    if p <= MAXCH:
        out.append((p, MAXCH))
    return out


def disjoint(x, y):
    return all(b < c or d < a for a, b in x for c, d in y)


def inter(x, y):
    return merge([(max(a, c), min(b, d)) for a, b in x for c, d in y if max(a, c) <= min(b, d)])


def esc(n):
    return z3.StringVal('\\u{%x}' % n) if n > 126 or n < 32 or n == 92 else z3.StringVal(chr(n))


def class_re(rs):
    rs = merge(rs)
    if not rs:
        return z3.Empty(RS)
    parts = [z3.Re(esc(a)) if a == b else z3.Range(esc(a), esc(b)) for a, b in rs]
    return parts[0] if len(parts) == 1 else z3.Union(*parts)


CATS = {sc.CATEGORY_DIGIT: r'\d', sc.CATEGORY_NOT_DIGIT: r'\D', sc.CATEGORY_SPACE: r'\s', sc.CATEGORY_NOT_SPACE: r'\S',
        sc.CATEGORY_WORD: r'\w', sc.CATEGORY_NOT_WORD: r'\W'}


def charset(item):
    """Code point ranges of a single-character item, or None."""
    op, av = item
    if op is sc.LITERAL:
        return [(av, av)]
    if op is sc.NOT_LITERAL:
        return negate([(av, av)])
    if op is sc.ANY:
        return negate([(10, 10)])
    if op is sc.IN:
        rs, neg = [], False
        for o, a in av:
            if o is sc.NEGATE:
                neg = True
            elif o is sc.LITERAL:
                rs.append((a, a))
            elif o is sc.RANGE:
                rs.append(a)
            elif o is sc.CATEGORY:
                rs += category(CATS[a])
            else:
                raise Unsupported(f're: {o}')
        return negate(rs) if neg else merge(rs)
    return None


def cat(parts):
    parts = [p for p in parts if not z3.eq(p, EPS)]
    return EPS if not parts else (parts[0] if len(parts) == 1 else z3.Concat(*parts))


def lang(items):
    return cat([lang1(i) for i in items])


def lang1(item):
    op, av = item
    cs = charset(item)
    if cs is not None:
        return class_re(cs)
    if op is sc.BRANCH:
        alts = [lang(a) for a in av[1]]
        return alts[0] if len(alts) == 1 else z3.Union(*alts)
    if op is sc.SUBPATTERN:
        if av[1] or av[2]:
            raise Unsupported('re: inline flags')
        return lang(av[3])
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
        lo, hi, sub = av
        r = lang(sub)
        if hi is sc.MAXREPEAT:
            return z3.Star(r) if lo == 0 else (z3.Plus(r) if lo == 1 else z3.Concat(z3.Loop(r, lo, lo), z3.Star(r)))
        if (lo, hi) == (0, 1):
            return z3.Option(r)
        return z3.Loop(r, lo, hi)
    raise Unsupported(f're: {op}')


def width(items):
    """(min, max) length."""
    lo = hi = 0
    for op, av in items:
        if charset((op, av)) is not None:
            a = b = 1
        elif op is sc.BRANCH:
            ws = [width(x) for x in av[1]]
            a, b = min(w[0] for w in ws), max(w[1] for w in ws)
        elif op is sc.SUBPATTERN:
            a, b = width(av[3])
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            w = width(av[2])
            a, b = w[0] * av[0], (float('inf') if av[1] is sc.MAXREPEAT else w[1] * av[1])
        elif op is sc.AT:
            a = b = 0
        else:
            raise Unsupported(f're: {op}')
        lo, hi = lo + a, hi + b
    return lo, hi


_INCL = {}


def included(a, b):
    """L(a) within L(b)?  None: not decided."""
    k = (a.sexpr(), b.sexpr())
    if k not in _INCL:
        _INCL[k] = empty(z3.Intersect(a, z3.Complement(b)))
    return _INCL[k]


def facts(c, z):
    """Languages the text z is known to be in (or not to be in) on this path."""
    out = []
    for f in c.solver.assertions():
        for g in (f.children() if z3.is_and(f) else [f]):
            pos = True
            if z3.is_not(g):
                pos, g = False, g.arg(0)
            if g.decl().kind() == z3.Z3_OP_SEQ_IN_RE and z3.eq(g.arg(0), z):
                out.append((pos, g.arg(1)))
    return out


def member(z, r):
    """z in L(r) as a condition; decided by language inclusion from the known facts where possible."""
    c = core.ctx()
    z = z3.simplify(z)
    for pos, l in facts(c, z):
        if pos and included(l, r) is True:
            return True
        if pos and included(l, z3.Complement(r)) is True:
            return False
        if not pos and included(r, l) is True:
            return False
    return z3.InRe(z, r)


def peel(z, pre, suf):
    """The part of z between a literal prefix and suffix, or None."""
    z = z3.simplify(z)
    if z3.is_string_value(z):
        from .values import _unescape
        t = _unescape(z)
        return z3.StringVal(t[len(pre):len(t) - len(suf)]) if t.startswith(pre) and t.endswith(suf) and len(t) >= len(pre) + len(suf) else None
    parts = []
    def flatten(e):
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            for k in e.children():
                flatten(k)
        else:
            parts.append(e)
    flatten(z)
    from .values import _unescape
    if pre:
        if not z3.is_string_value(parts[0]) or not _unescape(parts[0]).startswith(pre):
            return None
        parts[0] = z3.StringVal(_unescape(parts[0])[len(pre):])
    if suf:
        if not z3.is_string_value(parts[-1]) or not _unescape(parts[-1]).endswith(suf):
            return None
        t = _unescape(parts[-1])
        parts[-1] = z3.StringVal(t[:len(t) - len(suf)])
    return z3.simplify(z3.Concat(*parts)) if len(parts) > 1 else z3.simplify(parts[0])


def empty(r):
    """Is the language empty?  None: not decided."""
    s = z3.Solver()
    s.set('timeout', 3000)
    s.add(z3.InRe(z3.String('w'), r))
    v = s.check()
    return True if v == z3.unsat else (False if v == z3.sat else None)


def equal_lang(a, b):
    """(equal?, witness)"""
    s = z3.Solver()
    s.set('timeout', 5000)
    w = z3.String('w')
    s.add(z3.InRe(w, a) != z3.InRe(w, b))
    v = s.check()
    if v == z3.unsat:
        return True, None
    return (False, s.model()[w]) if v == z3.sat else (None, None)


def every(p):
    """With DOTALL a dot is any character."""
    if isinstance(p, sp.SubPattern):
        for i, (op, av) in enumerate(p.data):
            if op is sc.ANY:
                p.data[i] = (sc.IN, [(sc.RANGE, (0, MAXCH))])
            elif isinstance(av, (tuple, list, sp.SubPattern)):
                every(av)
    elif isinstance(p, (tuple, list)):
        for x in p:
            if isinstance(x, (tuple, list, sp.SubPattern)):
                every(x)


def drop_boundaries(items):
    """Leave out \\b between a word character and another one, where it always holds."""
    word = category(r'\w')
    inside = lambda cs, rs: all(any(a <= x and y <= b for a, b in rs) for x, y in cs)
    def only(item, last):
        cs = charset(item)
        if cs is None and item[0] in (sc.MAX_REPEAT, sc.MIN_REPEAT) and item[1][0] >= 1 and len(item[1][2]):
            cs = charset(item[1][2][-1 if last else 0])
        return cs
    out = []
    for i, it in enumerate(items):
        if it[0] is sc.AT and it[1] is sc.AT_BOUNDARY and out and i + 1 < len(items):
            a, b = only(out[-1], True), only(items[i + 1], False)
            if a is not None and b is not None:
                wa, wb = inside(a, word), inside(b, word)
                na, nb = inside(a, negate(word)), inside(b, negate(word))
                if wa and nb or na and wb:
                    continue
        out.append(it)
    return out


class Parsed:
    def __init__(self, src, flags=0):
        if flags & ~(re.UNICODE | re.DOTALL):
            raise Unsupported(f're flags {flags}')
        p = sp.parse(src, flags & ~re.DOTALL)
        if flags & re.DOTALL:
            every(p)
        if p.state.flags & ~re.UNICODE:
            raise Unsupported('re: inline flags')
        items = list(p)
        self.begin = self.end = self.zend = False
        while items and items[0][0] is sc.AT and items[0][1] in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            items.pop(0)
            self.begin = True
        while items and items[-1][0] is sc.AT and items[-1][1] in (sc.AT_END, sc.AT_END_STRING):
            if items[-1][1] is sc.AT_END:
                self.end = True
            else:
                self.zend = True
            items.pop()
        self.items = drop_boundaries(items)
        self.ngroups = p.state.groups - 1
        self.src = src

    def tail(self, mode):
        """What may follow the items up to the end of the text."""
        if mode == 'fullmatch' or self.zend:
            return EPS
        return z3.Option(z3.Re('\n')) if self.end else ALL

    def whole(self, mode):
        core_ = cat([lang(self.items), self.tail(mode)])
        if mode == 'search' and not self.begin:
            core_ = cat([ALL, core_])
        return core_


class Rex(Sym):
    """A compiled pattern."""
    def __init__(self, pat, flags=0):
        self.real = pat if isinstance(pat, re.Pattern) else re.compile(pat, flags)
        self.pattern, self.flags = self.real.pattern, self.real.flags
        self._p = None
    @property
    def parsed(self):
        if self._p is None:
            self._p = Parsed(self.pattern, self.flags & ~re.UNICODE)
        return self._p
    def _do(self, mode, s):
        if isinstance(s, str):
            return getattr(self.real, mode)(s)
        f = getattr(s, 'vc_re_' + mode, None)
        if f is not None:
            return f(self)
        if not isinstance(s, SymStr):
            raise TypeError('expected string or bytes-like object')
        c = core.ctx()
        if not c.branch(z3.InRe(s.z, self.parsed.whole(mode)), f're.{mode}'):
            return None
        return Match(self, mode, s)
    def match(self, s): return self._do('match', s)
    def fullmatch(self, s): return self._do('fullmatch', s)
    def search(self, s): return self._do('search', s)
    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(re.Pattern, name):
            raise AttributeError(name)
        def f(*a, **k):
            s = a[-1] if name in ('sub', 'subn') else a[0]
            if name in ('sub', 'subn'):
                s = a[1]
            g = getattr(s, 'vc_re_' + name, None)
            if g is not None:
                return g(self, *[x for x in a if x is not s], **k)
            if isinstance(s, Sym):
                raise Unsupported(f're.{name} on a symbolic text')
            return getattr(self.real, name)(*a, **k)
        return f
    def __bool__(self):
        return True


class Match(Sym):
    def __init__(self, rex, mode, text):
        self.rex, self.mode, self.string, self.re = rex, mode, text, rex
        self._g = None
    def __bool__(self):
        return True
    def _decompose(self):
        if self._g is not None:
            return self._g
        p = self.rex.parsed
        if self.mode == 'search' and not p.begin:
            raise Unsupported('groups of re.search')
        c = core.ctx()
        groups = {}
        rest = self.string.z
        tail = p.tail(self.mode)
        taken = []
        items = list(p.items)
        while items:
            it = items.pop(0)
            op, av = it
            num = None
            if op is sc.SUBPATTERN:
                num, sub = av[0], list(av[3])
            else:
                sub = [it]
            if len(sub) != 1 and num is not None:
                if width(sub)[0] != width(sub)[1] and width(items)[0] != width(items)[1]:
                    raise Unsupported('re: composite group')
            x, r2 = z3.String(c.fresh_name('re.part')), z3.String(c.fresh_name('re.rest'))
            after = cat([lang(items), tail])
            c.assume(rest == z3.Concat(x, r2))
            c.assume(z3.InRe(x, lang(sub)))
            c.assume(z3.InRe(r2, after))
            self._priority(c, sub, items, tail, x, r2, rest, after)
            taken.append(x)
            if num is not None:
                groups[num] = mkstr(x)
            rest = r2
        groups[0] = mkstr(z3.Concat(*taken)) if len(taken) > 1 else (mkstr(taken[0]) if taken else '')
        self._g = groups
        return groups
    def _priority(self, c, sub, items, tail, x, r2, rest, after):
        lo, hi = width(sub)
        if lo == hi:
            if len(sub) == 1 and sub[0][0] is sc.BRANCH:
                pass
            return                                   # determined by its length
        if z3.eq(tail, EPS):
            w = width(items)
            if w[0] == w[1]:
                return                               # determined by what remains
        if len(sub) == 1 and sub[0][0] is sc.BRANCH:
            alts = sub[0][1][1]
            conds = []
            for j, a in enumerate(alts):
                if width(a)[0] != width(a)[1]:
                    raise Unsupported('re: alternatives of variable length')
                earlier = [z3.InRe(rest, cat([lang(b), after])) for b in alts[:j]]
                conds.append(z3.And(z3.InRe(x, lang(a)), *[z3.Not(e) for e in earlier]))
            c.assume(z3.Or(*conds))
            return
        if len(sub) == 1 and sub[0][0] in (sc.MAX_REPEAT, sc.MIN_REPEAT) and len(sub[0][1][2]) == 1:
            one = list(sub[0][1][2])[0]
            cs = charset(one)
            if cs is not None and sub[0][1][1] is sc.MAXREPEAT:
                X = class_re(cs)
                start = z3.Concat(X, ALL)
                if empty(z3.Intersect(after, start)) is True:
                    return                           # what follows cannot start with such a character
                if sub[0][0] is sc.MAX_REPEAT:
                    if empty(z3.Intersect(after, z3.Concat(X, z3.Complement(after)))) is True:
                        c.assume(z3.Not(z3.InRe(r2, start)))   # maximal munch
                        return
                elif items and charset(items[0]) is not None and len(items) == 1 and z3.eq(tail, ALL):
                    c.assume(z3.InRe(x, z3.Star(class_re(inter(cs, negate(charset(items[0])))))))
                    return
        raise Unsupported(f're: ambiguous groups in {self.rex.pattern!r}')
    def group(self, *ns):
        g = self._decompose()
        out = []
        for n in ns or (0,):
            if not isinstance(n, int) or n not in g:
                if isinstance(n, int) and 0 < n <= self.rex.parsed.ngroups:
                    raise Unsupported('re: nested group')
                raise IndexError('no such group')
            out.append(g[n])
        return out[0] if len(out) == 1 else tuple(out)
    def __getitem__(self, n):
        return self.group(n)
    def groups(self, default=None):
        return tuple(self.group(n) for n in range(1, self.rex.parsed.ngroups + 1))
    def __getattr__(self, name):
        if name in ('start', 'end', 'span', 'groupdict', 'expand'):
            raise Unsupported(f'match.{name}')
        raise AttributeError(name)


class ReModule:
    """Stand-in for the module `re`."""
    def __init__(self, real=re):
        self.__dict__['real'] = real
    def __getattr__(self, name):
        return getattr(self.real, name)
    def compile(self, p, flags=0):
        return p if isinstance(p, Rex) else Rex(p, flags)
    def match(self, p, s, flags=0): return self.compile(p, flags).match(s)
    def fullmatch(self, p, s, flags=0): return self.compile(p, flags).fullmatch(s)
    def search(self, p, s, flags=0): return self.compile(p, flags).search(s)
    def finditer(self, p, s, flags=0): return self.compile(p, flags).finditer(s)
    def findall(self, p, s, flags=0): return self.compile(p, flags).findall(s)
    def split(self, p, s, maxsplit=0, flags=0): return self.compile(p, flags).split(s, maxsplit)
    def sub(self, p, repl, s, count=0, flags=0):
        return self.compile(p, flags).sub(repl, s) if count == 0 else self.compile(p, flags).sub(repl, s, count)


def wrapped(*owners):
    """(owner, name, Rex) for the compiled patterns that are attributes of the owners."""
    out = []
    for o in owners:
        for k, v in list(vars(o).items()):
            if isinstance(v, re.Pattern):
                out.append((o, k, Rex(v)))
    return out
