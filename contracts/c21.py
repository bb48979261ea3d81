"""C21: the condition language (WhereClause.from_cmdline, compile), the query a search makes (build_query and its helpers)
and the search command.  Conditions are texts of known shape (field, comparison, value with blanks in between);
the SQL expressions made are translated to conditions over an arbitrary row (pyvc.dbmodel) and compared with the
meaning of the condition."""
from pyvc.models import *
from pyvc.core import z3, PathEnd
from pyvc.values import uf, zstr, mkstr, LOWER, Opt
from pyvc import rex, runtime, parts
from pyvc.rex import ReModule, class_re, EPS, ALL
from pyvc.parts import piece, text
from pyvc import dbmodel as D
from pyvc.dbmodel import Row, truth
from contracts.textspec import typed

KIND = {'id': 'str', 'args': 'str', 'submit_id': 'str', 'submit_time': 'time', 'submit_host': 'str', 'server_id': 'str', 'server_host': 'str', 'schedule_time': 'time', 'client_id': 'str',
        'client_host': 'str', 'command': 'str', 'start_time': 'time', 'completion_time': 'time', 'exit_status': 'int', 'outpath': 'str', 'errpath': 'str', 'attempt': 'int', 'retried': 'bool',
        'waited': 'int', 'duration': 'int', 'previous_id': 'str', 'next_id': 'str', 'tag': 'tag'}
FIELDS = list(KIND)
OPS = ['==', '!=', '>=', '<=', '>', '<', '~']
CMP = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '>=': lambda a, b: a >= b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '<': lambda a, b: a < b}
WS = rex.CATS and class_re(rex.category(r'\s'))
NOWS = class_re(rex.negate(rex.category(r'\s')))
NOWS_EQ = class_re(rex.negate(rex.merge(rex.category(r'\s') + [(61, 61)])))
NAME = z3.Plus(class_re([(97, 122), (95, 95)]))
ANYOP = z3.Union(*[z3.Re(o) for o in OPS])
SHAPE = z3.Concat(NAME, z3.Star(WS), ANYOP, ALL)


def value_spec(field, op, z, v):
    """Condition: v is the value of the text z for a condition on this field."""
    if op == '~':
        return z3.BoolVal(False) if zstr(v) is None else zstr(v) == z
    kind = KIND[field]
    low = LOWER(z)
    null = z3.Or(low == 'null', low == 'none')
    if v is None:
        return null
    if kind == 'str':
        return z3.BoolVal(False) if zstr(v) is None else z3.And(z3.Not(null), zstr(v) == z)
    if kind == 'time':
        iso = uf('is_iso_datetime', z3.StringSort(), z3.BoolSort())(z)
        if isinstance(v, SymTime):
            return z3.And(iso, v.wall() == uf('iso_value', z3.StringSort(), z3.RealSort())(z))
        return z3.And(z3.Not(iso), core.as_z3_bool2(typed(z, v)))
    return core.as_z3_bool2(typed(z, v))


def from_cmdline(T):
    """Every text of the language: field, comparison and value are those written; any other text is rejected."""
    def body(c):
        c.env['iso zones'] = True
        with patched(*rex.wrapped(T, T.WhereClause), (T, 're', ReModule())):
            which = c.choose([('known field', None), ('unknown field', None), ('not a condition', None)], 'text')
            if which == 2:
                arg = mkval('str', 'argument')
                c.assume(z3.Not(z3.InRe(arg.z, SHAPE)))
                try:
                    r = T.WhereClause.from_cmdline(arg)
                except T.ArgumentError:
                    c.cover('rejected text')
                    return
                c.fail('from_cmdline: a text that is not a condition is rejected', repr(r))
                return
            op = OPS[c.choose([(o, None) for o in OPS], 'comparison')]
            if which == 1:
                others = z3.Intersect(NAME, z3.Complement(z3.Union(*[z3.Re(f) for f in FIELDS])))
                field = piece('field', others)
            else:
                field = FIELDS[c.choose([(f, None) for f in FIELDS], 'field')]
            # how the value is separated from the comparison does not depend on the field: all ways for one field of each type
            gap = c.choose([('value follows at once', None), ('blanks before the value', None), ('no value', None)], 'value') if which == 1 or field in ('args', 'exit_status', 'submit_time') else 1
            ws1 = piece('ws1', z3.Star(WS), known=False)
            if gap == 1:
                ws2, val = piece('ws2', z3.Plus(WS), known=False), piece('value', z3.Concat(NOWS, ALL), known=False)
            elif gap == 0:
                ws2, val = '', piece('value', z3.Concat(NOWS_EQ if op in '<>' else NOWS, ALL), known=False)
            else:
                ws2, val = piece('ws2', z3.Star(WS), known=False), ''
            arg = text(field, ws1, op, ws2, val)
            zval = val.z if val else z3.StringVal('')
            if not val:                      # the empty text, as CPython reads it
                c.assume(z3.And(LOWER(zval) == '', *[z3.Not(uf(n, z3.StringSort(), z3.BoolSort())(zval)) for n in ('is_int_text', 'is_float_text', 'is_iso_datetime', 'is_iso_with_offset')]))
            try:
                r = T.WhereClause.from_cmdline(arg)
            except T.ArgumentError:
                c.prove('from_cmdline: only conditions on unknown fields are rejected', which == 1, f'{field} {op}')
                c.cover('rejected field')
                return
            if which == 1:
                c.fail('from_cmdline: a condition on an unknown field is rejected', repr(r))
                return
            c.prove('from_cmdline: the field written', exact(r.field, field), repr(r.field))
            c.prove('from_cmdline: the comparison written', exact(r.operand, op), repr(r.operand))
            if KIND[field] != 'tag':
                c.prove('from_cmdline: the value written, read as the type of the field', value_spec(field, op, zval, r.value), f'{field} {op} {r.value!r}')
            c.cover('value ' + ('SymStr' if isinstance(r.value, SymStr) else type(r.value).__name__))
    return body


def compile_(T):
    """The SQL condition made from a condition selects exactly the rows for which it holds; null can only be (in)equal."""
    def body(c):
        op = OPS[c.choose([(o, None) for o in OPS], 'comparison')]
        fs = [f for f in FIELDS if KIND[f] != 'tag' and (op != '~' or KIND[f] == 'str') and (KIND[f] != 'bool' or op in ('==', '!='))]
        field = fs[c.choose([(f, None) for f in fs], 'field')]
        kind = KIND[field]
        kinds = {'str': ['str'], 'int': ['int', 'real'], 'time': ['time', 'aware'], 'bool': ['true', 'false', '1', '0']}[kind] + ([] if op == '~' else ['null'])
        k = kinds[c.choose([(x, None) for x in kinds], 'value')]
        v = {'str': lambda: mkval('str', 'value'), 'int': lambda: mkval('int', 'value'), 'real': lambda: mkval('real', 'value'), 'time': lambda: SymTime(z3.Real('value'), False),
             'aware': lambda: SymTime(z3.Real('value'), True), 'true': lambda: True, 'false': lambda: False, '1': lambda: 1, '0': lambda: 0, 'null': lambda: None}[k]()
        row = Row('row')
        n, z = row[field]
        clause = T.WhereClause(field=field, value=v, operand=op)
        try:
            e = clause.compile()
        except T.ArgumentError:
            c.fail('compile: not rejected', f'{field} {op} {k}')
            return
        except Exception as err:
            if isinstance(err, core.EngineStop) or isinstance(err, Unsupported):
                raise
            c.prove('compile: only an order comparison with null has no meaning', k == 'null' and op not in ('==', '!='), f'{field} {op} {k}: {err}')
            c.cover('no meaning')
            return
        if k == 'null':
            want = {'==': n, '!=': z3.Not(n)}.get(op, False)
            c.cover('null')
        elif op == '~':
            want = z3.And(z3.Not(n), D.REGEXP(v.z, z))
            c.cover('pattern')
        else:
            zv = z3.BoolVal(bool(v)) if kind == 'bool' else (v.z if kind != 'int' or k != 'real' else v.z)
            zz = z3.ToReal(z) if k == 'real' else z
            want = z3.And(z3.Not(n), CMP[op](zz, zv))
            c.cover(kind)
        got = truth(e, row)[0]
        if want is False:
            c.fail('compile: an order comparison with null has no meaning', f'{field} {op}')
            return
        c.prove('compile: the tasks for which the comparison holds', got == want, f'{field} {op} {k}: {e}')
    return body


class Config:
    """Effective configuration with a SQLite database."""
    class database:
        provider = 'sqlite'
        file = 'database file'
        def get(self, k, d=None):
            raise Unsupported('config.database.get')
    database = database()
    def __getattr__(self, a):
        raise Unsupported(f'config.{a}')


class Cond:
    """What WhereClause.from_cmdline makes of an arbitrary condition."""
    def __init__(self, z):
        self.z = z
    def compile(self):
        return SqlCond(self.z)


class SqlCond:
    def __init__(self, z):
        self.z = z
    def vc_truth(self, row):
        return uf('condition_holds', z3.StringSort(), z3.StringSort(), z3.BoolSort())(self.z, row.val('id')), z3.BoolVal(False)


SELECT = {'show_failed': lambda r: z3.And(z3.Not(r.null('exit_status')), r.val('exit_status') != 0), 'show_succeeded': lambda r: z3.And(z3.Not(r.null('exit_status')), r.val('exit_status') == 0),
          'show_completed': lambda r: z3.Not(r.null('exit_status')), 'show_remaining': lambda r: r.null('exit_status')}


def tag_meaning(row, name, value):
    """The row has the tag; with the value, where one is given (SQLite does not tell true from 1)."""
    k = row.val('id')
    has = D.TAG_HAS(k, zstr(name))
    if value is None:
        return z3.And(has, D.TAG_KIND(k, zstr(name)) == 0)
    if zstr(value) is not None:
        z = zstr(value)
        return z3.And(has, z3.Or(z == '', z3.And(D.TAG_KIND(k, zstr(name)) == 2, D.TAG_TEXT(k, zstr(name)) == z)))
    if isinstance(value, bool):
        z = z3.RealVal(int(value))
    elif isinstance(value, SymBool):
        z = z3.If(value.z, z3.RealVal(1), z3.RealVal(0))
    else:
        z = z3.ToReal(znum(value)) if znum(value).sort() == z3.IntSort() else znum(value)
    return z3.And(has, D.TAG_KIND(k, zstr(name)) == 1, D.TAG_NUM(k, zstr(name)) == z)


class Search:
    """An instance of the mixin with arbitrary conditions, tag filters, order and limit."""
    def __init__(self, c, T, cls, ntags=3, order=True, selector=True, limit=True):
        self.c, self.T = c, T
        M = mod('data.model')
        self.session = D.Session(c)
        self.sel = c.choose([(k, None) for k in ['no selector', *SELECT]], 'selector') if selector else 0
        self.sel = [None, *SELECT][self.sel]
        self.n = c.choose([(str(i), None) for i in range(ntags + 1)], 'tag filters')
        self.tags = []
        for i in range(self.n):
            k = c.choose([(x, None) for x in ('text', 'boolean', 'integer', 'number', 'null')], f'tag value {i}')
            v = [lambda: mkval('str', f'tagvalue{i}'), lambda: mkval('bool', f'tagvalue{i}'), lambda: mkval('int', f'tagvalue{i}'), lambda: mkval('real', f'tagvalue{i}'), lambda: None][k]()
            self.tags.append(T.Tag(name=mkval('str', f'tagname{i}'), value=v))
        self.texts = [mkval('str', f'tagtext{i}') for i in range(self.n)]
        self.conds = Var('conditions', lambda n: mkval('str', n))
        self.limit = [None, mkval('int', 'limit')][c.choose([('no limit', None), ('limit', None)], 'limit') if limit else 0]
        fields = FIELDS if order == 'all' else ['submit_time']
        k = c.choose([(x, None) for x in ['no order', *fields]], 'order') if order else 0
        self.order = None if k == 0 else fields[k - 1]
        self.desc = bool(self.order) and c.choose([('ascending', None), ('descending', None)], 'direction') == 1
        app = self.app = object.__new__(cls)
        d = app.__dict__
        self.wc = SymSeq([self.conds])
        d.update(where_clauses=self.wc, taglist=SymSeq([Unit(t) for t in self.texts]), limit=self.limit, order_by=self.order, order_desc=self.desc)
        for s in SELECT:
            d[s] = s == self.sel
        self.selected = []
        real = T.WhereClause.from_cmdline
        def clause(arg):
            if isinstance(arg, str):
                return real(arg)
            return Cond(arg.z)
        def tag(arg):
            i = [k for k in range(self.n) if self.texts[k] is arg]
            if not i:
                c.fail('build_query: the tag filters given are used', repr(arg))
            return self.tags[i[0]]
        self.patches = patched((M, 'Session', self.session), (T, 'Session', self.session), (T, 'config', Config()), (T.WhereClause, 'from_cmdline', clause), (T.Tag, 'from_cmdline', tag),
                               (T, 'ensuredb', lambda: None))
    def __enter__(self):
        self.patches.__enter__()
        return self
    def __exit__(self, *a):
        return self.patches.__exit__(*a)
    def expected(self, row):
        want = [tag_meaning(row, t.name, t.value) for t in self.tags]
        if self.sel:
            want.append(SELECT[self.sel](row))
        return z3.And(*want) if want else z3.BoolVal(True)
    def check(self, q, what):
        """The query selects exactly the tasks for which all conditions, tag filters and the selector hold, ordered and limited as requested."""
        c = self.c
        if not isinstance(q, D.Query):
            c.fail(f'{what}: a query', repr(q))
            return
        each = [f for f in q.filters if isinstance(f, D.Each)]
        rest = [f for f in q.filters if not isinstance(f, D.Each)]
        if c.branch(self.conds.n > 0, 'conditions given'):
            ok = len(each) == 1 and each[0].var is self.conds
            if not each and any(isinstance(f, SqlCond) for f in rest):
                raise Unsupported('conditions not added one by one')
            c.prove(f'{what}: every condition is part of the query', ok)
            for cond, fs in each[0].branches:
                got = z3.And(*[truth(f, Row('row'))[0] for f in fs]) if fs else z3.BoolVal(True)
                c.prove(f'{what}: a condition selects what it says', z3.Implies(z3.And(cond, self.conds.n > 0), got == SqlCond(self.conds.gen.z).vc_truth(Row('row'))[0]))
            c.cover('conditions')
        row = Row('row')
        bad = D.text_params(q.filters)
        c.prove(f'{what}: one parameter for every tag name', bad is None, bad)
        got = [truth(f, row)[0] for f in rest]
        c.prove(f'{what}: exactly the tasks that satisfy the tag filters and the selector', (z3.And(*got) if got else z3.BoolVal(True)) == self.expected(row), f'{len(rest)} filters')
        c.prove(f'{what}: the requested order', list(q.order) == ([(self.order, self.desc)] if self.order else []), repr(q.order))
        c.prove(f'{what}: the requested limit', q.lim is self.limit, repr(q.lim))


def build(T, which):
    def body(c):
        w = Search(c, T, T.TaskSearchApp, ntags={'tags': 3, 'order': 0}.get(which, 1), order='all' if which == 'order' else False, selector=which == 'selector', limit=which != 'tags')
        names = FIELDS if which == 'order' else ['id', 'args']
        w.app.__dict__['field_names'] = list(names)
        with w:
            q = w.app.build_query()
        w.check(q, 'build_query')
        c.prove('build_query: the requested fields', [getattr(t, 'key', None) for t in q.targets] == names, repr(q.targets))
        c.cover(f'{w.n} tags')
        c.cover(str(w.sel))
        if w.order:
            c.cover('order')
    return body


def search_app(T):
    """The command prints exactly what the query returns (or how many), for known fields only."""
    def body(c):
        app = object.__new__(T.TaskSearchApp)
        k = c.choose([('known fields', None), ('unknown field', None)], 'fields')
        names = ['id', 'exit_status', 'args'] + (['no_such_field'] if k else [])
        count = c.choose([('tasks', None), ('count', None)], 'mode') == 1
        app.__dict__.update(field_names=names, show_count=count, list_tag_keys=False, list_tag_values=False, output_format='plain', output_delimiter=',')
        printed, out, rows, n = [], [], SymSeq([]), 0
        printed, rows, n = [], SymSeq([Var('rows', lambda n: mkval('str', n))]), mkval('int', 'count')
        class Q:
            def all(self): return rows
            def count(self): return n
        def build_query(self):
            return Q()
        app.__dict__['print_output'] = printed.append
        class Out:
            def vc_print(self, args, kw): out.append(args)
            def write(self, t): raise Unsupported('write')
        c.env['stdout'] = Out()
        with patched((T, 'ensuredb', lambda: None), (T.SearchableMixin, 'build_query', build_query), (T.TaskSearchApp, 'print_plain', lambda self, r: printed.append(r))):
            try:
                app.run()
            except T.ArgumentError:
                c.prove('search: only unknown fields are rejected', k == 1)
                c.cover('unknown field')
                return
        c.prove('search: unknown fields are rejected', k == 0)
        if count:
            c.cover('count')
            c.prove('search: prints the number of tasks', not printed and len(out) == 1 and len(out[0]) == 1 and out[0][0] is n, repr(out))
        else:
            c.cover('tasks')
            c.prove('search: prints exactly the tasks returned', len(printed) == 1 and printed[0] is rows)
    return body


def run(rep):
    T = mod('task')
    rep.run('WhereClause.from_cmdline', from_cmdline(T), covers=['rejected text', 'rejected field', 'value NoneType', 'value SymStr', 'value SymInt', 'value SymReal', 'value SymTime', 'value SymBool'])
    rep.run('WhereClause.compile', compile_(T), covers=['null', 'pattern', 'str', 'int', 'time', 'bool', 'no meaning'])
    rep.run('SearchableMixin.build_query', build(T, 'selector'), covers=['conditions', '0 tags', '1 tags', *SELECT])
    rep.run('SearchableMixin.build_query (order)', build(T, 'order'), covers=['conditions', 'order'])
    rep.run('SearchableMixin.build_query (tags)', build(T, 'tags'), covers=['3 tags'])
    rep.run('TaskSearchApp.run', search_app(T), covers=['tasks', 'count', 'unknown field'])
