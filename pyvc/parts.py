"""Texts given as a sequence of literal pieces and arbitrary pieces of known regular languages.

Operations of `str` and `re` on such texts are decided by language inclusion and disjointness (exact: an
operation whose outcome is not the same for every text of the given shape is Unsupported)."""
from . import core, rex
from .core import z3, Unsupported
from .values import Sym, SymStr, SymInt, SymSeq, SymBool, uf, zstr, mkstr, znum
from .rex import sc, ALL, EPS, RS, included, empty, cat, lang, class_re, width, category

class Piece:
    """An arbitrary text of a regular language; `split` optionally gives the contract of splitting it."""
    def __init__(self, z, re, split=None, num=False):
        self.z, self.re, self.splits, self.num = z, re, split or {}, num
    def __repr__(self):
        return str(self.z)


def piece(name, re, known=True, **kw):
    """An arbitrary text of re (known=False: the solver is not told, only the decisions about the shape use it)."""
    c = core.ctx()
    z = z3.String(c.fresh_name(name))
    if known:
        c.solver.add(z3.InRe(z, re))
    return Piece(z, re, **kw)


def prefixes(r):
    """All prefixes of the words of r."""
    k = r.decl().kind()
    ch = r.children()
    if k == z3.Z3_OP_RE_CONCAT:
        return z3.Union(*[cat(ch[:i] + [prefixes(x)]) for i, x in enumerate(ch)])
    if k == z3.Z3_OP_RE_UNION:
        return z3.Union(*[prefixes(x) for x in ch])
    if k in (z3.Z3_OP_RE_STAR, z3.Z3_OP_RE_PLUS):
        return cat([z3.Star(ch[0]), prefixes(ch[0])])
    if k == z3.Z3_OP_RE_OPTION:
        return z3.Union(EPS, prefixes(ch[0]))
    if k == z3.Z3_OP_RE_LOOP:
        return cat([z3.Star(ch[0]), prefixes(ch[0])])          # over-approximation
    if k == z3.Z3_OP_RE_RANGE:
        return z3.Option(r)
    if k == z3.Z3_OP_SEQ_TO_RE and z3.is_string_value(ch[0]):
        from .values import _unescape
        t = _unescape(ch[0])
        return z3.Union(*[z3.Re(lit(t[:i])) for i in range(len(t) + 1)]) if t else EPS
    if k in (z3.Z3_OP_RE_FULL_SET,):
        return r
    raise Unsupported(f'prefixes of {r}')


def suffixes(r):
    k = r.decl().kind()
    ch = r.children()
    if k == z3.Z3_OP_RE_CONCAT:
        return z3.Union(*[cat([suffixes(x)] + ch[i + 1:]) for i, x in enumerate(ch)])
    if k == z3.Z3_OP_RE_UNION:
        return z3.Union(*[suffixes(x) for x in ch])
    if k in (z3.Z3_OP_RE_STAR, z3.Z3_OP_RE_PLUS, z3.Z3_OP_RE_LOOP):
        return cat([suffixes(ch[0]), z3.Star(ch[0])])
    if k == z3.Z3_OP_RE_OPTION:
        return z3.Union(EPS, suffixes(ch[0]))
    if k == z3.Z3_OP_RE_RANGE:
        return z3.Option(r)
    if k == z3.Z3_OP_SEQ_TO_RE and z3.is_string_value(ch[0]):
        from .values import _unescape
        t = _unescape(ch[0])
        return z3.Union(*[z3.Re(lit(t[i:])) for i in range(len(t) + 1)]) if t else EPS
    if k in (z3.Z3_OP_RE_FULL_SET,):
        return r
    raise Unsupported(f'suffixes of {r}')


def lit(t):
    return z3.StringVal(''.join(c if 32 <= ord(c) <= 126 and c != '\\' else '\\u{%x}' % ord(c) for c in t))


def disjoint(a, b):
    return included(a, z3.Complement(b))


def nonempty(r):
    return z3.Intersect(r, z3.Concat(rex.ANY, ALL))


def split_tail(items):
    """Items without a trailing lookahead, and the language of what must follow the match."""
    items, after = list(items), ALL
    while items and items[-1][0] in (sc.ASSERT, sc.ASSERT_NOT):
        op, (direction, sub) = items.pop()
        if direction < 0:
            raise Unsupported('re: lookbehind')
        look = cat([lang(list(sub)), ALL])
        after = z3.Intersect(after, z3.Complement(look) if op is sc.ASSERT_NOT else look)
    return items, after


def mk(parts):
    """The text made of these pieces."""
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    if all(isinstance(p, str) for p in out):
        return ''.join(out)
    return Parts(out)


def text(*parts):
    return mk([q for p in parts for q in (p.parts if isinstance(p, Parts) else [p])])


class Parts(SymStr):
    __slots__ = ('parts',)
    def __init__(self, parts):
        self.parts = parts
        zs = [lit(p) if isinstance(p, str) else p.z for p in parts]
        self.z = z3.Concat(*zs) if len(zs) > 1 else zs[0]
    __hash__ = Sym.__hash__
    def __eq__(self, o):
        if isinstance(o, str):
            d = self.decide(z3.Re(lit(o)))
            if d is False:
                return False
        return SymStr.__eq__(self, o)
    def __ne__(self, o):
        r = self == o
        return (~r) if isinstance(r, SymBool) else not r

    # languages
    def res(self, parts=None):
        return [z3.Re(lit(p)) if isinstance(p, str) else p.re for p in (self.parts if parts is None else parts)]
    def re(self, parts=None):
        return cat(self.res(parts))
    def decide(self, r):
        """Is every text of this shape in r (True), none (False), or neither (None)?"""
        a = self.re()
        if included(a, r) is True:
            return True
        if disjoint(a, r) is True:
            return False
        return None
    def test(self, r, what):
        d = self.decide(r)
        return SymBool(z3.InRe(self.z, r)) if d is None else d

    def __bool__(self):
        d = self.decide(EPS)
        return SymStr.__bool__(self) if d is None else not d
    def vc_contains(self, o):
        if isinstance(o, str):
            return self.test(cat([ALL, z3.Re(lit(o)), ALL]), 'contains')
        return SymBool(z3.Contains(self.z, zstr(o)))
    def __contains__(self, o):
        r = self.vc_contains(o)
        return r if isinstance(r, bool) else bool(r)
    def startswith(self, p):
        if isinstance(p, tuple):
            raise Unsupported('startswith(tuple)')
        return self.test(cat([z3.Re(lit(p)), ALL]), 'startswith') if isinstance(p, str) else SymStr.startswith(self, p)
    def endswith(self, p):
        if isinstance(p, tuple):
            raise Unsupported('endswith(tuple)')
        return self.test(cat([ALL, z3.Re(lit(p))]), 'endswith') if isinstance(p, str) else SymStr.endswith(self, p)
    def isdigit(self):
        return self.test(z3.Plus(class_re([(48, 57)])), 'isdigit')
    isdecimal = isnumeric = isdigit
    def vc_int(self):
        if self.decide(z3.Plus(class_re([(48, 57)]))) is not True:
            return None
        v = SymInt(uf('int_of_text', z3.StringSort(), z3.IntSort())(self.z))
        core.ctx().assume(v.z >= 0)
        return v

    # stripping
    def _strip(self, chars, left, right):
        if chars is None:
            cls = class_re(category(r'\s'))
            has = lambda x: x.isspace()
        elif isinstance(chars, str) and chars:
            cls = class_re([(ord(x), ord(x)) for x in chars])
            has = lambda x: x in chars
        else:
            raise Unsupported('strip with symbolic characters')
        parts = list(self.parts)
        while parts and left:
            rest = self.re(parts)
            if disjoint(rest, cat([cls, ALL])) is True:
                break
            if not isinstance(parts[0], str):
                raise Unsupported('strip of an arbitrary piece')
            t = parts[0]
            while t and has(t[0]):
                t = t[1:]
            if t:
                parts[0] = t
                break
            parts.pop(0)
        while parts and right:
            rest = self.re(parts)
            if disjoint(rest, cat([ALL, cls])) is True:
                break
            if not isinstance(parts[-1], str):
                raise Unsupported('strip of an arbitrary piece')
            t = parts[-1]
            while t and has(t[-1]):
                t = t[:-1]
            if t:
                parts[-1] = t
                break
            parts.pop()
        return mk(parts)
    def strip(self, chars=None): return self._strip(chars, True, True)
    def lstrip(self, chars=None): return self._strip(chars, True, False)
    def rstrip(self, chars=None): return self._strip(chars, False, True)
    def removeprefix(self, p):
        d = self.startswith(p)
        if d is True and isinstance(self.parts[0], str) and self.parts[0].startswith(p):
            return mk([self.parts[0][len(p):]] + self.parts[1:])
        if d is False:
            return self
        raise Unsupported('removeprefix')
    def removesuffix(self, p):
        d = self.endswith(p)
        if d is True and isinstance(self.parts[-1], str) and self.parts[-1].endswith(p):
            return mk(self.parts[:-1] + [self.parts[-1][:-len(p)]])
        if d is False:
            return self
        raise Unsupported('removesuffix')

    # splitting
    def _pieces(self, sep, most=-1):
        """The parts between the (first `most`) occurrences of sep."""
        if isinstance(sep, Parts):
            n = len(sep.parts)
            first = sep.parts[0]
            if not isinstance(first, str):
                raise Unsupported('split at an arbitrary text')
            ch = first[0]
            found = None
            flat = []
            for p in self.parts:                     # align: cut literals at the marking character
                flat.extend([x for q in p.split(ch) for x in (ch, q)][1:] if isinstance(p, str) else [p])
            flat = [p for p in flat if p != '']
            want = []
            for p in sep.parts:
                want.extend([x for q in p.split(ch) for x in (ch, q)][1:] if isinstance(p, str) else [p])
            want = [p for p in want if p != '']
            if sum(1 for p in want if p == ch) != 1 or want[0] != ch:
                raise Unsupported('split at an arbitrary text')
            at = [i for i, p in enumerate(flat) if p == ch]
            for p in flat:
                if not isinstance(p, str) and disjoint(p.re, cat([ALL, z3.Re(lit(ch)), ALL])) is not True:
                    raise Unsupported('split at an arbitrary text')
            if len(at) != 1:
                raise Unsupported('split at an arbitrary text')
            i = at[0]
            j = i
            k = 0
            while k < len(want):
                if j >= len(flat):
                    raise Unsupported('split at an arbitrary text')
                a, b = flat[j], want[k]
                if a is b or (isinstance(a, str) and a == b):
                    j, k = j + 1, k + 1
                elif k == len(want) - 1 and isinstance(a, str) and isinstance(b, str) and a.startswith(b):
                    flat[j] = a[len(b):]
                    k += 1
                else:
                    raise Unsupported('split at an arbitrary text')
            return [flat[:i], flat[j:]]
        if isinstance(sep, SymStr) or not isinstance(sep, str) or not sep:
            raise Unsupported('split')
        if len(sep) != 1:
            raise Unsupported('split at a longer text')
        out = [[]]
        for p in self.parts:
            if most >= 0 and len(out) > most:
                out[-1].append(p)
            elif isinstance(p, str):
                q = p.split(sep, most - len(out) + 1 if most >= 0 else -1)
                out[-1].append(q[0])
                out.extend([x] for x in q[1:])
            else:
                if disjoint(p.re, cat([ALL, z3.Re(lit(sep)), ALL])) is not True:
                    raise Unsupported('split of an arbitrary piece')
                out[-1].append(p)
        return out
    def split(self, sep=None, maxsplit=-1):
        if sep is not None and maxsplit == -1 and len(self.parts) == 1 and isinstance(sep, str) and sep in self.parts[0].splits:
            return self.parts[0].splits[sep]()
        ps = self._pieces(sep, maxsplit)
        if maxsplit >= 0 and len(ps) > maxsplit + 1:
            rest = []
            for k, p in enumerate(ps[maxsplit:]):
                rest.extend(([sep] if k else []) + p)
            ps = ps[:maxsplit] + [rest]
        return SymSeq(elems=[mk(p) for p in ps])
    def partition(self, sep):
        ps = self._pieces(sep, 1)
        if len(ps) == 1:
            return self, '', ''
        rest = []
        for k, p in enumerate(ps[1:]):
            rest.extend(([sep] if k else []) + p)
        return mk(ps[0]), sep, mk(rest)
    def rpartition(self, sep):
        ps = self._pieces(sep)
        if len(ps) == 1:
            return '', '', self
        rest = []
        for k, p in enumerate(ps[:-1]):
            rest.extend(([sep] if k else []) + p)
        return mk(rest), sep, mk(ps[-1])
    def count(self, sep):
        return len(self._pieces(sep)) - 1
    def find(self, sep):
        ps = self._pieces(sep, 1)
        return -1 if len(ps) == 1 else b_pos(mk(ps[0]))
    def index(self, sep):
        ps = self._pieces(sep, 1)
        if len(ps) == 1:
            raise ValueError('substring not found')
        return b_pos(mk(ps[0]))
    def replace(self, a, b, count=-1):
        if count != -1:
            raise Unsupported('replace')
        ps = self._pieces(a)
        out = []
        for k, p in enumerate(ps):
            if k:
                out.append(b if isinstance(b, str) else None)
                if out[-1] is None:
                    out.pop()
                    if not isinstance(b, Parts):
                        raise Unsupported('replace')
                    out.extend(b.parts)
            out.extend(p)
        return mk(out)

    # positions
    def cut(self, pos):
        """Parts before and after a position (a number or symbolic term)."""
        if isinstance(pos, int) and pos < 0:
            k = -pos
            if isinstance(self.parts[-1], str) and len(self.parts[-1]) >= k:
                t = self.parts[-1]
                return self.parts[:-1] + [t[:-k]], [t[-k:]]
            raise Unsupported('position in an arbitrary piece')
        z = znum(pos)
        if z is None:
            raise Unsupported('position')
        off = z3.IntVal(0)
        for i in range(len(self.parts) + 1):
            d = z3.simplify(z - off)
            if z3.is_int_value(d):
                d = d.as_long()
                if d == 0:
                    return self.parts[:i], self.parts[i:]
                if i < len(self.parts) and isinstance(self.parts[i], str) and 0 < d <= len(self.parts[i]):
                    t = self.parts[i]
                    return self.parts[:i] + [t[:d]], [t[d:]] + self.parts[i + 1:]
            if i < len(self.parts):
                p = self.parts[i]
                off = off + (len(p) if isinstance(p, str) else z3.Length(p.z))
        raise Unsupported('position in an arbitrary piece')
    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step is not None:
                raise Unsupported('slice step')
            t = self
            if k.stop is not None:
                t = mk(t.cut(k.stop)[0])
            if k.start is not None:
                if isinstance(t, str):
                    raise Unsupported('slice')
                t = mk(t.cut(k.start)[1])
            return t
        if k == 0:
            p = self.parts[0]
            if isinstance(p, str):
                return p[0]
            if disjoint(p.re, EPS) is not True:
                raise Unsupported('first character')
            return SymStr(z3.SubString(self.z, 0, 1))
        if k == -1:
            p = self.parts[-1]
            if isinstance(p, str):
                return p[-1]
            if disjoint(p.re, EPS) is not True:
                raise Unsupported('last character')
            return SymStr(z3.SubString(self.z, z3.Length(self.z) - 1, 1))
        raise Unsupported('character of an arbitrary piece')
    def zfill(self, n):
        return zfill(self, n)

    # regular expressions
    def _items(self, x):
        p = x.parsed
        if p.zend or p.end:
            raise Unsupported('re: end anchor')
        return p, split_tail(p.items)
    def _end(self, parts, W, fixed):
        """Index of the cut (in parts) where the only prefix in W ends."""
        if fixed is not None and parts and isinstance(parts[0], str) and len(parts[0]) >= fixed:
            return [parts[0][:fixed]], [parts[0][fixed:]] + parts[1:]
        if fixed == 0:
            return [], parts
        found = []
        for i in range(len(parts) + 1):
            pre = self.re(parts[:i]) if i else EPS
            if i and not isinstance(parts[i - 1], str) and disjoint(parts[i - 1].re, EPS) is not True:
                pre1 = cat(self.res(parts[:i - 1]) + [nonempty(parts[i - 1].re)])    # where it is empty the position before is meant
                if disjoint(pre1, W) is not True:
                    raise Unsupported('re: where the match ends')
            else:
                pre1 = pre
            if disjoint(pre1, W) is not True:
                if included(pre, W) is not True:
                    raise Unsupported('re: where the match ends')
                found.append((parts[:i], parts[i:]))
            if i < len(parts):
                p = parts[i]
                if isinstance(p, str):
                    for k in range(1, len(p)):
                        q = cat([pre, z3.Re(lit(p[:k]))])
                        if disjoint(q, W) is not True:
                            if included(q, W) is not True:
                                raise Unsupported('re: where the match ends')
                            found.append((parts[:i] + [p[:k]], [p[k:]] + parts[i + 1:]))
                else:
                    # strictly inside the piece
                    inside = cat([pre, nonempty_prefixes(p.re)])
                    if disjoint(inside, W) is not True:
                        raise Unsupported('re: where the match ends')
        if len(found) != 1:
            raise Unsupported('re: several possible ends')
        return found[0]
    def _search(self, x, anchored):
        p, (items, after) = self._items(x)
        W = lang(items)
        M = cat([W, after]) if after is not ALL else cat([W, ALL])
        w = width(items)
        fixed = w[0] if w[0] == w[1] else None
        parts = self.parts
        for i in range(len(parts) + 1):
            q = parts[i] if i < len(parts) else ''
            offs = range(len(q)) if isinstance(q, str) and q else [0]
            for o in offs:
                before = parts[:i] + ([q[:o]] if isinstance(q, str) else [])
                here = ([q[o:]] if isinstance(q, str) else [q]) + parts[i + 1:]
                here = [h for h in here if h != '']
                L = self.re(here) if here else EPS
                if not isinstance(q, str) and disjoint(q.re, EPS) is not True:
                    L = cat([nonempty(q.re)] + self.res(here[1:]))   # where it is empty the next position is meant
                    if disjoint(L, M) is not True:
                        raise Unsupported('re: whether there is a match')
                if disjoint(L, M) is not True:
                    if included(L, M) is not True:
                        raise Unsupported('re: whether there is a match')
                    m, rest = self._end(here, W, fixed)
                    if after is not ALL and included(self.re([h for h in rest if h != '']) if rest else EPS, after) is not True:
                        raise Unsupported('re: what follows the match')
                    return PMatch(x, self, before, m, rest, items)
                if anchored or p.begin:
                    return None
            if i < len(parts) and not isinstance(q, str):
                L = cat([nonempty(suffixes(q.re))] + self.res(parts[i + 1:]))     # positions inside the piece
                if disjoint(L, M) is not True:
                    raise Unsupported('re: whether a match starts inside an arbitrary piece')
        return None
    def vc_re_search(self, x):
        if x.parsed.begin:
            return self.vc_re_match(x)
        return self._search(x, False)
    def vc_re_match(self, x):
        if x.parsed.ngroups and x.parsed.begin:
            try:
                return self._sequence(x)
            except Unsupported as e:
                if self.decide(x.parsed.whole('match')) is not True:
                    raise
                return SomeMatch(x, self, e)
        return self._search(x, True)
    def _starts(self, parts, X):
        """Do these pieces start with a character of X?  (None: some do)"""
        L = self.re(parts) if parts else EPS
        start = z3.Concat(X, ALL)
        if disjoint(L, start) is True:
            return False
        return True if included(L, start) is True else None
    def _sequence(self, x):
        """Match from the start, item by item (greedy, first alternative that fits); every decision is the same for all texts of this shape."""
        p = x.parsed
        tail = p.tail('match')
        d = self.decide(p.whole('match'))
        if d is None:
            raise Unsupported('re: whether there is a match')
        if not d:
            return None
        flat = []
        for op, av in p.items:
            flat += [(it, av[0]) for it in av[3]] if op is sc.SUBPATTERN and av[0] is not None else [((op, av), None)]
        rest, taken, groups = list(self.parts), [], {}
        for k, (it, num) in enumerate(flat):
            after = cat([lang([f[0] for f in flat[k + 1:]]), tail])
            cs = rex.charset(it)
            got = []
            if cs is not None:
                if not rest or not isinstance(rest[0], str):
                    raise Unsupported('re: a single character of an arbitrary piece')
                got, rest = [rest[0][:1]], [rest[0][1:]] + rest[1:]
            elif it[0] is sc.MAX_REPEAT and len(it[1][2]) == 1 and rex.charset(it[1][2][0]) is not None and it[1][1] is sc.MAXREPEAT:
                X = class_re(rex.charset(it[1][2][0]))
                XS = z3.Star(X)
                while rest:
                    q = rest[0]
                    if isinstance(q, str):
                        n = 0
                        while n < len(q) and included(z3.Re(lit(q[n])), X) is True:
                            n += 1
                        if n:
                            got.append(q[:n])
                        rest = ([q[n:]] if q[n:] else []) + rest[1:]
                        if q[n:]:
                            break
                        continue
                    if included(q.re, XS) is True:
                        got.append(q)
                        rest = rest[1:]
                        continue
                    if self._starts(rest, X) is False:
                        break
                    raise Unsupported('re: where a repetition ends')
                if it[1][0] and included(self.re(got) if got else EPS, lang([it])) is not True:
                    raise Unsupported('re: whether there are enough repetitions')
            elif it[0] is sc.BRANCH:
                for alt in it[1][1]:
                    w = width(alt)
                    L, M = (self.re(rest) if rest else EPS), cat([lang(alt), after])
                    if disjoint(L, M) is True:
                        continue
                    if included(L, M) is not True or w[0] != w[1] or w[0] and not (rest and isinstance(rest[0], str) and len(rest[0]) >= w[0]):
                        raise Unsupported('re: which alternative')
                    if w[0]:
                        got, rest = [rest[0][:w[0]]], [rest[0][w[0]:]] + rest[1:]
                    break
                else:
                    raise Unsupported('re: no alternative')
            else:
                raise Unsupported(f're: {it[0]}')
            rest = [r for r in rest if r != '']
            if included(self.re(rest) if rest else EPS, after) is not True:
                raise Unsupported('re: a repetition may take less')
            taken += got
            if num is not None:
                groups[num] = groups.get(num, []) + got
        m = PMatch(x, self, [], taken, rest, p.items)
        m.known = {n: mk(g) for n, g in groups.items()}
        return m
    def vc_re_fullmatch(self, x):
        d = self.decide(x.parsed.whole('fullmatch'))
        if d is None:
            raise Unsupported('re: whether there is a match')
        if not d:
            return None
        return PMatch(x, self, [], self.parts, [], x.parsed.items)


def nonempty_prefixes(r):
    """Prefixes that may end strictly inside a word of r (over-approximated: all non-empty prefixes)."""
    return z3.Intersect(prefixes(r), z3.Concat(rex.ANY, ALL))


def b_pos(t):
    return len(t) if isinstance(t, str) else SymInt(z3.simplify(z3.Length(t.z)))


def zfill(v, n):
    """str.zfill for texts without sign."""
    S, I = z3.StringSort(), z3.IntSort()
    return SymStr(uf('py_zfill', S, I, S)(zstr(v), znum(n)))


class SomeMatch(Sym):
    """A match whose extent and groups are not known."""
    def __init__(self, x, src, why):
        self.re, self.string, self.why = x, src, why
    def __bool__(self):
        return True
    def __getattr__(self, a):
        raise self.__dict__['why']
    def __getitem__(self, n):
        raise self.why


class PMatch(Sym):
    known = None
    def __init__(self, x, src, before, m, rest, items):
        self.re, self.string = x, src
        self.before, self.m, self.rest, self.items = mk(before), mk(m), mk(rest), items
    def __bool__(self):
        return True
    def start(self, g=0):
        if g:
            raise Unsupported('start of a group')
        return b_pos(self.before)
    def end(self, g=0):
        if g:
            raise Unsupported('end of a group')
        return b_pos(text(self.before, self.m))
    def span(self, g=0):
        return self.start(g), self.end(g)
    def group(self, *ns):
        out = [self._group(n) for n in ns or (0,)]
        return out[0] if len(out) == 1 else tuple(out)
    def _group(self, n):
        if n == 0:
            return self.m
        if self.known is not None:
            if n not in self.known and n > self.re.parsed.ngroups:
                raise IndexError('no such group')
            return self.known.get(n, '')
        pre, suf, k = '', '', None
        for i, (op, av) in enumerate(self.items):
            if op is sc.SUBPATTERN and av[0] == n:
                k = i
            elif op is sc.LITERAL:
                if k is None:
                    pre += chr(av)
                else:
                    suf += chr(av)
            else:
                raise Unsupported('re: group of an arbitrary piece')
        if k is None:
            raise Unsupported('re: group of an arbitrary piece')
        t = self.m
        t = t[len(pre):] if pre else t
        return t[:-len(suf)] if suf else t
    def __getitem__(self, n):
        return self.group(n)
    def groups(self, default=None):
        return tuple(self._group(n) for n in range(1, self.re.parsed.ngroups + 1))
