"""Contract of the SQLAlchemy session.  The code under contract builds real SQLAlchemy expressions; they
are translated, clause by clause, to three-valued formulas over a generic row.  A query returns an arbitrary
sequence of rows satisfying its filter, at most `limit` of them; what it leaves behind is stated by the
contract (fewer rows than the limit: none is left)."""
import operator
from sqlalchemy.sql import elements as E, operators as O, selectable as _sel
from sqlalchemy.orm.attributes import InstrumentedAttribute, QueryableAttribute
from sqlalchemy.sql.schema import Column
from .core import z3, Unsupported, ctx, PathEnd
from .values import *
from .values import SymSeq, Unit, Var, Map, raw, veq, Opt, SORTS, uf
from .models import TaskRec, frozen, cat

T, F = z3.BoolVal(True), z3.BoolVal(False)


class ClientRec(Record):
    schema = {'id': 'str', 'host': 'str', 'server_id': 'str', 'server_host': 'str', 'connected_at': '?time', 'disconnected_at': '?time', 'evicted': 'bool'}


RECORDS = {'task': TaskRec, 'client': ClientRec}


class Row:
    """A generic row of a table; columns as (null, value)."""
    def __init__(self, name, table='task'):
        self.rec = RECORDS[table](name)
        self.table = table
    def __getitem__(self, col):
        n, z = raw(self.rec, col)
        if z is None and col != 'tag':
            raise Unsupported(f'column {col}')
        return n, z
    def null(self, col):
        return self[col][0]
    def val(self, col):
        return self[col][1]


def over(values, table='task', base=None):
    """Row whose named columns are replaced: {col: (null, z)}"""
    class R:
        def __getitem__(self, col):
            return values[col] if col in values else base[col]
        def null(self, col): return self[col][0]
        def val(self, col): return self[col][1]
    r = R()
    r.table = table
    return r


# ---------------------------------------------------------------- expressions: (value, null) with bool values

def term(e, row):
    """SQL scalar expression -> (null, z3 term) ; (True, None) for NULL."""
    if isinstance(e, QueryableAttribute):
        e = e.__clause_element__()
    if isinstance(e, E.Null):
        return T, None
    if isinstance(e, E.True_):
        return F, T
    if isinstance(e, E.False_):
        return F, F
    if isinstance(e, E.BindParameter):
        v = e.value if e.callable is None else e.callable()
        if isinstance(v, Opt):
            return v.null, z3term(v.v)
        if v is None:
            return T, None
        return F, z3term(v)
    if isinstance(e, E.Grouping):
        return term(e.element, row)
    if isinstance(e, E.Label):
        return term(e.element, row)
    if isinstance(e, E.AnnotatedColumnElement) or isinstance(e, (Column, E.ColumnClause)):
        t = getattr(e, 'table', None)
        if t is not None and hasattr(row, 'column'):
            return row.column(t.name, e.name)
        if t is not None and t.name != row.table:
            raise Unsupported(f'column of table {t.name}')
        return row[e.name]
    return truth2(*truth(e, row))


def truth2(t, n):
    return n, t


def z3term(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        return z3.RealVal(v)
    if isinstance(v, str):
        return z3.StringVal(v)
    if isinstance(v, SymTime):
        return v.wall()
    if isinstance(v, Scalar):
        return v.z
    raise Unsupported(f'literal {type(v)} in a query')


def co(a, b):
    """Common sort of two terms."""
    if a.sort() == b.sort():
        return a, b
    def num(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0)) if x.sort() == z3.BoolSort() else x
    a, b = num(a), num(b)
    if a.sort() == b.sort():
        return a, b
    ns = {z3.IntSort(): 0, z3.RealSort(): 1}
    if a.sort() in ns and b.sort() in ns:
        return (z3.ToReal(a) if a.sort() == z3.IntSort() else a), (z3.ToReal(b) if b.sort() == z3.IntSort() else b)
    raise Unsupported(f'comparison of {a.sort()} with {b.sort()}')


CMP = {O.eq: lambda a, b: a == b, O.ne: lambda a, b: a != b, O.lt: lambda a, b: a < b, O.le: lambda a, b: a <= b, O.gt: lambda a, b: a > b, O.ge: lambda a, b: a >= b}


def boolz(z):
    return z if z.sort() == z3.BoolSort() else z != 0


def truth(e, row):
    """SQL condition -> (is TRUE, is NULL)."""
    own = getattr(e, 'vc_truth', None)
    if own is not None and not isinstance(e, E.ClauseElement):
        return own(row)
    if isinstance(e, QueryableAttribute):
        e = e.__clause_element__()
    if isinstance(e, bool):
        return z3.BoolVal(e), F
    if isinstance(e, E.Grouping):
        return truth(e.element, row)
    if isinstance(e, (E.BooleanClauseList, E.ExpressionClauseList)):
        parts = [truth(c, row) for c in e.clauses]
        ts, ns = [p[0] for p in parts], [p[1] for p in parts]
        fs = [z3.And(z3.Not(t), z3.Not(n)) for t, n in parts]
        if e.operator is O.and_:
            t, f = z3.And(*ts), z3.Or(*fs)
        elif e.operator is O.or_:
            t, f = z3.Or(*ts), z3.And(*fs)
        else:
            raise Unsupported(f'clause list {e.operator}')
        return t, z3.And(z3.Not(t), z3.Not(f))
    if isinstance(e, E.UnaryExpression):
        if e.operator is O.inv or e.operator is operator.inv:
            t, n = truth(e.element, row)
            return z3.And(z3.Not(t), z3.Not(n)), n
        raise Unsupported(f'operator {e.operator}')
    if isinstance(e, E.AsBoolean):
        n, z = term(e.element, row)
        t = boolz(z)
        if e.operator in (O.isfalse, O.is_false):
            t = z3.Not(t)
        return z3.And(t, z3.Not(n)), n
    if isinstance(e, E.BinaryExpression):
        op = e.operator
        if op in (O.and_, O.or_):
            return truth(E.BooleanClauseList._construct_raw(op, [e.left, e.right]), row)
        if op in (O.in_op, O.not_in_op):
            n1, z1 = term(e.left, row)
            vals = e.right.value if isinstance(e.right, E.BindParameter) else None
            if vals is None or isinstance(vals, SymSeq) and not vals.concrete:
                raise Unsupported('IN with a symbolic list')
            t = z3.Or(*[z1 == z3term(v) for v in vals]) if len(vals) else F
            if op is O.not_in_op:
                t = z3.Not(t)
            return z3.And(t, z3.Not(n1)), n1
        for a, b in ((e.left, e.right), (e.right, e.left)):
            j = tag_item(a)
            if j is not None:
                return tag_compare(op, j, a.type, b, row)
        n1, z1 = term(e.left, row)
        n2, z2 = term(e.right, row)
        if op is O.regexp_match_op:
            if z1 is None or z2 is None:
                return F, T
            if z1.sort() != z3.StringSort() or z2.sort() != z3.StringSort():
                raise Unsupported('regular expression on a value that is not text')
            n = z3.Or(n1, n2)
            return z3.And(z3.Not(n), REGEXP(z2, z1)), n
        if op in (O.is_, O.is_not, O.is_distinct_from, O.is_not_distinct_from):
            if z1 is None or z2 is None:
                same = n1 == n2 if (z1 is None) == (z2 is None) else z3.And(n1, n2)
                same = z3.And(n1, n2) if z1 is None or z2 is None else same
            else:
                a, b = co(z1, z2)
                same = z3.Or(z3.And(n1, n2), z3.And(z3.Not(n1), z3.Not(n2), a == b))
            return (same if op in (O.is_, O.is_not_distinct_from) else z3.Not(same)), F
        if op in CMP:
            n = z3.Or(n1, n2)
            if z1 is None or z2 is None:
                return F, T
            a, b = co(z1, z2)
            return z3.And(z3.Not(n), CMP[op](a, b)), n
        raise Unsupported(f'operator {op}')
    if isinstance(e, E.TextClause):
        return sql_text(e, row)
    if isinstance(e, (E.True_,)):
        return T, F
    if isinstance(e, (E.False_, E.Null)):
        return F, (T if isinstance(e, E.Null) else F)
    if isinstance(e, (Column, E.ColumnClause, E.AnnotatedColumnElement)):
        n, z = term(e, row)
        return z3.And(z3.Not(n), boolz(z)), n
    raise Unsupported(f'SQL condition {type(e).__name__}')


S = z3.StringSort()
REGEXP = uf('sqlite_regexp', S, S, z3.BoolSort())             # re.search(pattern, text)
# the tag dictionary of a row: which names, kind of value (0 null, 1 boolean/number, 2 text), value
TAG_HAS, TAG_KIND = uf('tag_has', S, S, z3.BoolSort()), uf('tag_kind', S, S, z3.IntSort())
TAG_NUM, TAG_TEXT = uf('tag_number', S, S, z3.RealSort()), uf('tag_text', S, S, S)


def rowkey(row):
    return row.val('id')


def path_of(name):
    return z3.Concat(z3.StringVal('$."'), name, z3.StringVal('"'))


def strip_type(e):
    while isinstance(e, (E.Grouping, E.TypeCoerce)):
        e = e.element if isinstance(e, E.Grouping) else e.typed_expression
    return e


def tag_item(e):
    """Name of the tag for an expression Task.tag[name], else None."""
    e = strip_type(e)
    if isinstance(e, E.BinaryExpression) and e.operator is O.json_getitem_op:
        left = strip_type(e.left)
        if getattr(left, 'name', None) != 'tag' or not isinstance(e.right, E.BindParameter):
            raise Unsupported('JSON item')
        return z3term(e.right.value)
    return None


def tag_compare(op, name, ty, other, row):
    """SQLite: json_extract of a missing tag and of null is NULL, of a boolean 0 or 1; with JSON type the texts are compared."""
    from sqlalchemy import types as ST
    k = rowkey(row)
    has, kind = TAG_HAS(k, name), TAG_KIND(k, name)
    null = z3.Or(z3.Not(has), kind == 0)
    if isinstance(other, E.Null) and op in (O.is_, O.is_not):
        if isinstance(ty, ST.JSON):
            raise Unsupported('json_quote of NULL compared with NULL')
        return (null if op is O.is_ else z3.Not(null)), F
    if op is not O.eq:
        raise Unsupported(f'{op} on a tag')
    o = strip_type(other)
    if not isinstance(o, E.BindParameter):
        raise Unsupported('comparison of a tag')
    v = o.value
    if isinstance(ty, ST.JSON):
        if not isinstance(other.type, ST.JSON):
            raise Unsupported('comparison of JSON text')
        if v is None:
            return null, F
        z = zstr(v)
        if z is None:
            raise Unsupported('the JSON text of a number')       # not the same in SQLite and Python
        return z3.And(has, kind == 2, TAG_TEXT(k, name) == z), F
    if v is None:
        raise Unsupported('comparison with NULL')
    if zstr(v) is not None:
        if not isinstance(ty, ST.String):
            raise Unsupported('comparison of a number with text')
        return z3.And(has, kind == 2, TAG_TEXT(k, name) == zstr(v)), null
    z = z3term(v)
    z = z3.If(z, z3.RealVal(1), z3.RealVal(0)) if z.sort() == z3.BoolSort() else (z3.ToReal(z) if z.sort() == z3.IntSort() else z)
    if not isinstance(ty, (ST.Float, ST.Numeric, ST.Integer, ST.Boolean)):
        raise Unsupported(f'comparison of a tag as {ty}')
    return z3.And(has, kind == 1, TAG_NUM(k, name) == z), null


def sql_text(e, row):
    """Conditions given as SQL text (recognised by their text)."""
    import re
    m = re.fullmatch(r'\s*json_type\(\s*(?:task\.)?tag\s*,\s*:(\w+)\s*\)\s+is\s+not\s+null\s*', e.text, re.I)
    if not m:
        raise Unsupported(f'SQL text {e.text!r}')
    b = e._bindparams[m[1]]
    z = zstr(b.value)
    if z is None:
        raise Unsupported('JSON path')
    n = z3.SubString(z, 3, z3.Length(z) - 4)
    ctx().prove('JSON paths: $."name"', z == path_of(n))
    return TAG_HAS(rowkey(row), z3.simplify(n)), F


def text_params(filters):
    """Names of the parameters in conditions given as SQL text: one value per name in a statement."""
    seen = {}
    for f in filters:
        if isinstance(f, E.TextClause):
            for k, b in f._bindparams.items():
                if k in seen and veq(seen[k], b.value) is not True:
                    return k
                seen[k] = b.value
    return None


class Each:
    """Condition: all conditions contributed by the elements of a symbolic sequence."""
    def __init__(self, var, branches):
        self.var, self.branches = var, branches
    def vc_truth(self, row):
        return z3.Bool(f'each!{id(self)}!{row.val("id")}'), F


def order_key(e):
    """(column, descending) of an ORDER BY element."""
    desc = False
    if isinstance(e, QueryableAttribute):
        e = e.__clause_element__()
    while isinstance(e, E.UnaryExpression):
        if e.modifier is O.desc_op:
            desc = not desc
        elif e.modifier is not O.asc_op:
            raise Unsupported(f'order modifier {e.modifier}')
        e = e.element
    if not hasattr(e, 'name'):
        raise Unsupported('ORDER BY expression')
    return e.name, desc


class Query:
    """The query interface, as far as used."""
    def __init__(self, session, targets, filters=(), order=(), lim=None):
        self.s, self.targets, self.filters, self.order, self.lim = session, targets, tuple(filters), tuple(order), lim
    def _with(self, **k):
        d = dict(session=self.s, targets=self.targets, filters=self.filters, order=self.order, lim=self.lim)
        d.update(k)
        return Query(**d)
    @property
    def entity(self):
        cols = [t.class_ for t in self.targets if isinstance(t, InstrumentedAttribute)]
        if cols and len(cols) == len(self.targets) and all(k is cols[0] for k in cols):
            return cols[0]
        if len(self.targets) != 1 or not isinstance(self.targets[0], type):
            raise Unsupported('query of columns')
        return self.targets[0]
    @property
    def table(self):
        return self.entity.__tablename__
    def _room(self):
        if self.lim is not None:
            raise Unsupported('filter or order after limit')
    def filter(self, *conds):
        self._room()
        return self._with(filters=self.filters + conds)
    where = filter
    def filter_by(self, **kw):
        self._room()
        return self._with(filters=self.filters + tuple(getattr(self.entity, k) == v for k, v in kw.items()))
    def order_by(self, *keys):
        self._room()
        return self._with(order=self.order + tuple(order_key(k) for k in keys if k is not None))
    def limit(self, n):
        return self._with(lim=n)
    def vc_fold(self, seg, body, cells, name):
        """Rule for a loop over a symbolic sequence that narrows this query: every element adds its conditions to an arbitrary query."""
        from . import runtime
        c = ctx()
        var = runtime._base(seg)
        brs = [(T, [var.gen])] if isinstance(seg, Var) else seg.branches
        out = []
        before = Each(None, [])
        q0 = self._with(filters=(before,))
        for cond, vs in brs:
            def run(cap, vs=vs, cond=cond):
                c.assume(var.n > 0)
                c.assume(cond)
                cells.set(name, q0)
                for v in vs:
                    r = body(v)
                    if r is not None:
                        raise Unsupported('early exit from a loop over a symbolic sequence')
                q1 = cells.get(name)
                if not isinstance(q1, Query) or q1.targets is not q0.targets or q1.order != q0.order or q1.lim is not q0.lim or q1.filters[:1] != (before,):
                    raise Unsupported('a loop changes more than the conditions of a query')
                return list(q1.filters[1:])
            for cnd, val, cap in runtime.subexplore(run):
                if cap.effects:
                    raise Unsupported('effects in a loop over conditions')
                out.append((cnd, val))
        cells.set(name, self._with(filters=self.filters + (Each(var, out),)))
    def pred(self, row):
        """The row is selected (WHERE is TRUE)."""
        ts = [truth(f, row)[0] for f in self.filters]
        return z3.And(*ts) if ts else T
    def all(self):
        return self.s._result(self, 'all')
    def __iter__(self):
        raise Unsupported('iteration over a query')
    def count(self):
        return self.s._result(self, 'count')
    def first(self):
        return self.s._result(self, 'first')
    def one(self):
        return self.s._result(self, 'one')
    def one_or_none(self):
        return self.s._result(self, 'one_or_none')
    def __getattr__(self, a):
        raise Unsupported(f'query.{a}')


class Session:
    """Ghost state: `log` of everything done; `persistent` are the row sequences under management."""
    def __init__(self, c, result=None):
        self.c = c
        self.log = []
        self.queries = []
        self.added = SymSeq([])
        self.updated = SymSeq([])
        self.persistent = []
        self.committed = None
        self.handler = result
        self.dirty = 0
    def query(self, *targets):
        return Query(self, targets)
    def _result(self, q, kind):
        c = self.c
        self.queries.append(q)
        q.kind = kind
        self.log.append((kind, q))
        if self.handler is not None:
            r = self.handler(self, q, kind)
            if r is not NotImplemented:
                return r
        if kind == 'count':
            n = SymInt(z3.Int(c.fresh_name(f'count_{q.table}')))
            c.assume(n.z >= 0)
            q.result = n
            return n
        if kind != 'all':
            raise Unsupported(f'query.{kind}')
        name = c.fresh_name(f'{q.table}_rows')
        rec = RECORDS[q.table]
        def mk(n):
            r = rec(n)
            row = Row(n, q.table)
            c.solver.add(q.pred(row))
            return r
        v = Var(name, mk)
        if q.lim is not None:
            z = znum(q.lim)
            if z is None:
                raise Unsupported('limit')
            c.solver.add(z3.If(z >= 0, v.n <= z, T))
        q.var = v
        q.result = SymSeq([v])
        self.persistent.append(q.result)
        return SymSeq([v])
    def add_all(self, items):
        s = as_seq(items)
        self.added.extend(SymSeq(list(s._norm().segs)))
        self.persistent.append(SymSeq(list(s._norm().segs)))
        self.log.append(('add', frozen(s)))
    def add(self, item):
        self.add_all([item])
    def bulk_update_mappings(self, cls, changes):
        s = frozen(as_seq(changes))
        self.updated.extend(s)
        self.log.append(('update', s))
    def commit(self):
        self.committed = [frozen(p) for p in self.persistent]
        self.log.append(('commit',))
    def rollback(self):
        self.log.append(('rollback',))
    def expire_all(self):
        self.log.append(('expire',))
    def flush(self, *a):
        pass
    def __getattr__(self, a):
        raise Unsupported(f'session.{a}')
    def pending(self):
        """Effects not yet committed."""
        last = max([i for i, e in enumerate(self.log) if e[0] == 'commit'], default=-1)
        return [e for e in self.log[last + 1:] if e[0] in ('add', 'update', 'rollback')]


def equivalent(c, name, q, spec, table='task', tag=''):
    """The filter of a query selects exactly the rows of the specification, for all rows."""
    row = Row(c.fresh_name('anyrow' + tag), table)
    c.prove(name, q.pred(row) == spec(row))
