"""C22: the arguments of a bulk update (process_arguments, every text), what it does to the database (update_tasks for
every mode: one UPDATE or DELETE of the query, or the tasks returned by the limited query), the single task form."""
from pyvc.models import *
from pyvc.core import z3, PathEnd
from pyvc.values import uf, zstr, mkstr, LOWER, STRIP, Opt, SymDict
from pyvc import rex, runtime, parts
from pyvc.rex import ReModule, class_re, EPS, ALL
from pyvc.parts import piece, text
from pyvc import dbmodel as D
from pyvc.dbmodel import Row, truth
from contracts.textspec import typed
from contracts.c21 import KIND, FIELDS, OPS, WS, NAME, ANYOP, SHAPE, Config, value_spec
from sqlalchemy.sql import elements as E, operators as O

NO = lambda *chs: class_re(rex.negate(sorted((ord(x), ord(x)) for x in chs)))
OTHER = z3.Intersect(z3.Star(NO('=')), z3.Complement(z3.Union(*[z3.Re(f) for f in FIELDS])))
CLOSED = z3.Intersect(z3.Complement(z3.Concat(NAME, z3.Star(WS), z3.Union(z3.Re('<'), z3.Re('>'), z3.Re('~')), ALL)), z3.Complement(z3.Concat(NAME, z3.Star(WS), z3.Re('!'))))
OPEN = z3.Concat(NAME, z3.Star(WS))                     # the start of a condition
NOTEQ = z3.Option(z3.Concat(NO('='), ALL))
REJECTED = {'a condition': SHAPE, 'an unknown field': z3.Concat(z3.Intersect(OTHER, CLOSED), z3.Re('='), NOTEQ), 'an unknown field, value starts with =': z3.Concat(z3.Intersect(OTHER, CLOSED, z3.Complement(OPEN)), z3.Re('='), z3.Re('='), ALL),
            'the identifier': z3.Concat(z3.Re('id='), NOTEQ), 'all tags': z3.Concat(z3.Re('tag='), NOTEQ), 'neither = nor :': z3.Intersect(z3.Star(NO('=', ':')), z3.Complement(SHAPE))}
REJ = list(REJECTED)


class Args:
    """The positional arguments: any number; an arbitrary one is processed after all earlier ones were accepted."""
    def __init__(self, c, T, w):
        self.c, self.T, self.w = c, T, w
    def __iter__(self):
        raise Unsupported('native iteration over the arguments')
    def vc_for(self, body):
        c = self.c
        dicts = []
        for cell in body.__closure__ or ():
            try:
                v = cell.cell_contents
            except ValueError:
                continue
            if isinstance(v, (dict, SymDict)):
                if len(v):
                    raise Unsupported('changes recorded before the loop')
                if not isinstance(v, SymDict):
                    same = [d for d in dicts if d[0] is v]
                    cell.cell_contents = same[0][1] if same else SymDict()
                    if not same:
                        dicts.append((v, cell.cell_contents))
        dicts = [d for _, d in dicts]
        self.dicts = dicts
        if c.choose([('all accepted', None), ('argument', None)], 'arguments') == 0:
            self.done = True
            return None
        kinds = ['field', 'tag', *REJ]
        kind = kinds[c.choose([(k, None) for k in kinds], 'argument')]
        # earlier arguments may have set other fields and tags
        earlier = SymDict([(SymStr(z3.String('earlier')), mkval('str', 'earlier value'))])
        w = self.w
        w.validated.clear()
        if kind == 'field':
            field = [f for f in FIELDS if f not in ('id', 'tag')][c.choose([(f, None) for f in FIELDS if f not in ('id', 'tag')], 'field')]
            empty = field == 'args' and c.choose([('value', None), ('no value', None)], 'value') == 1
            val = '' if empty else piece('value', z3.Concat(NO('='), ALL), known=False)
            arg = text(field, '=', val)
            zval = z3.StringVal('') if empty else val.z
            if empty:
                c.assume(LOWER(zval) == '')
        elif kind == 'tag':
            key = piece('key', z3.Intersect(z3.Star(NO('=', ':')), z3.Complement(z3.Concat(NAME, z3.Star(WS), z3.Union(z3.Re('<'), z3.Re('>'), z3.Re('~')), ALL))), known=False)
            empty = c.choose([('value', None), ('no value', None)], 'value') == 1
            val = '' if empty else piece('value', z3.Plus(NO('=')), known=False)
            arg = text(key, ':', val)
            zval = z3.StringVal('') if empty else val.z
            if empty:
                c.assume(z3.And(LOWER(zval) == '', *[z3.Not(uf(n, z3.StringSort(), z3.BoolSort())(zval)) for n in ('is_int_text', 'is_float_text')]))
        else:
            arg = parts.mk([piece('argument', REJECTED[kind], known=False)])
            if kind in ('the identifier', 'all tags', 'an unknown field', 'an unknown field, value starts with ='):
                eq = {'the identifier': 'id=', 'all tags': 'tag='}.get(kind)
                if eq:
                    arg = text(eq, piece('value', NOTEQ, known=False))
                elif kind == 'an unknown field':
                    arg = text(piece('field', z3.Intersect(OTHER, CLOSED), known=False), '=', piece('value', NOTEQ, known=False))
                else:
                    arg = text(piece('field', z3.Intersect(OTHER, CLOSED, z3.Complement(OPEN)), known=False), '==', piece('value', ALL, known=False))
        try:
            r = body(arg)
        except (self.T.ArgumentError, Invalid) as e:
            if isinstance(e, Invalid):
                c.cover('invalid tag')
                c.prove('process_arguments: an argument that is understood is not rejected', kind == 'tag')
            else:
                c.cover('rejected argument')
                c.prove('process_arguments: an argument that is understood is not rejected', kind in REJ, kind)
            raise PathEnd('rejected')
        if r is not None:
            c.fail('process_arguments: every argument is processed')
        c.prove('process_arguments: what is not understood is rejected', kind not in REJ, kind)
        got = [(i, list(d.items())) for i, d in enumerate(dicts)]
        new = [(i, it) for i, items in got for it in items]
        c.prove('process_arguments: one change for one argument', len(new) == 1, repr(new))
        i, (k, v) = new[0]
        self.c.cover(kind)
        if kind == 'field':
            w.field_dict = dicts[i]
            c.prove('process_arguments: the field written is changed', exact(k, field), repr(k))
            c.prove('process_arguments: to the value written, read as the type of the field', value_spec(field, '', zval, v), f'{field}: {v!r}')
        else:
            w.tag_dict = dicts[i]
            c.prove('process_arguments: the tag written is changed', (zstr(k) == key.z) if zstr(k) is not None else False, repr(k))
            c.prove('process_arguments: to the typed value written', typed(zval, v), repr(v))
            c.prove('process_arguments: an accepted tag is valid', any(exact(a, k) and exact(b, v) for d in w.validated for a, b in d), 'not validated')
        w.index = (kind, i)
        raise PathEnd('argument processed')


class Invalid(ValueError):
    pass


class ArgWorld:
    def __init__(self, c, T):
        self.validated = []
        self.index = None
        self.field_dict = self.tag_dict = None


def arguments(T):
    """What is returned: the changed fields first, the changed tags second; order without limit is rejected."""
    seen = {}
    def body(c):
        c.env['iso zones'] = True
        w = ArgWorld(c, T)
        app = object.__new__(T.TaskUpdateApp)
        args = Args(c, T, w)
        args.done = False
        order = [None, 'submit_time'][c.choose([('no order', None), ('order', None)], 'order')]
        desc = c.choose([('ascending', None), ('descending', None)], 'direction') == 1
        limit = [None, mkval('int', 'limit')][c.choose([('no limit', None), ('limit', None)], 'limit')]
        app.__dict__.update(update_args=args, order_by=order, order_desc=desc, limit=limit)
        def ensure(tag):
            items = list(tag.items()) if tag is not None else []
            if items and c.choose([('valid', None), ('invalid', None)], 'validation') == 1:
                raise Invalid('invalid tag')
            w.validated.append(items)
        try:
            with patched(*rex.wrapped(T, T.WhereClause), (T, 're', ReModule()), (T.Task, 'ensure_valid_tag', staticmethod(ensure))):
                r = app.process_arguments()
        except T.ArgumentError:
            c.cover('rejected options')
            ok = desc and not order
            c.prove('process_arguments: only an order without limit is rejected', z3.BoolVal(True) if ok or order and limit is None else (limit.z == 0 if order else z3.BoolVal(False)))
            return
        finally:
            if w.index:
                seen.setdefault(w.index[0], set()).add(w.index[1])
        c.cover('accepted')
        c.prove('process_arguments: changed fields and changed tags', isinstance(r, tuple) and len(r) == 2 and len(args.dicts) >= 2 and all(any(x is d for d in args.dicts) for x in r) and r[0] is not r[1])
        pos = [[x is d for d in args.dicts].index(True) for x in r]
        c.prove('process_arguments: fields first, then tags', seen.get('field', {pos[0]}) == {pos[0]} and seen.get('tag', {pos[1]}) == {pos[1]}, f'{seen} {pos}')
        c.prove('process_arguments: a descending order needs an order, an order needs a limit', not (desc and not order) and (not order or limit is not None))
    return body


# ------------------------------------------------------------------------------------------ update_tasks

class UQuery(D.Query):
    """A query that also allows UPDATE and DELETE (only without order and limit)."""
    def _with(self, **k):
        q = D.Query._with(self, **k)
        q.__class__ = UQuery
        return q
    def _plain(self):
        if self.lim is not None or self.order:
            from sqlalchemy.exc import InvalidRequestError
            raise InvalidRequestError('Can\'t call Query.update() or Query.delete() when limit() has been called')
    def update(self, values, synchronize_session='auto', **k):
        self._plain()
        self.s.log.append(('bulk update', self, dict(values.items())))
        return mkval('int', 'matched')
    def delete(self, synchronize_session='auto', **k):
        self._plain()
        self.s.log.append(('bulk delete', self))
        return mkval('int', 'matched')
    def vc_segs(self):
        return as_seq(list(self.all())).segs
    def __iter__(self):
        return iter(self.all())


class USession(D.Session):
    def query(self, *targets):
        return UQuery(self, targets)


class Base:
    """The conditions of the command."""
    def vc_truth(self, row):
        return uf('selected', z3.StringSort(), z3.BoolSort())(row.val('id')), z3.BoolVal(False)


def tag_ops(c, v):
    """[('set', name, value) | ('remove', name)] of an SQL expression over task.tag."""
    import re
    if not isinstance(v, E.TextClause):
        raise Unsupported('tag expression')
    def par(p):
        return v._bindparams[p].value
    def go(t):
        t = t.strip()
        if t in ('task.tag', 'tag'):
            return []
        m = re.fullmatch(r'json_set\((.*),\s*:(\w+),\s*json\(:(\w+)\)\)', t, re.S)
        if m:
            return go(m[1]) + [('set', par(m[2]), par(m[3]))]
        m = re.fullmatch(r'json_remove\((.*),\s*:(\w+)\)', t, re.S)
        if m:
            return go(m[1]) + [('remove', par(m[2]))]
        raise Unsupported(f'tag expression {t!r}')
    return go(v.text)


class JsonStub:
    """json.dumps: an injective text of the value (SQLite's json() is its inverse, assumed)."""
    @staticmethod
    def dumps(v):
        return Wrapped('json', v)
    def __getattr__(self, a):
        raise Unsupported(f'json.{a}')


REVERTED = ['schedule_time', 'server_host', 'server_id', 'client_host', 'client_id', 'command', 'start_time', 'completion_time', 'exit_status', 'outpath', 'errpath', 'waited', 'duration']


class Update:
    def __init__(self, c, T, mode, limited):
        self.c, self.T = c, T
        M = mod('data.model')
        self.s = USession(c, self.result)
        self.mode = mode
        nf = c.choose([('no field', None), ('fields', None)], 'fields')
        self.fields = {} if not nf else {'args': mkval('str', 'new args'), 'exit_status': mkval('int', 'new status')}
        nt, nr = c.choose([(str(k), None) for k in range(3)], 'tags'), c.choose([(str(k), None) for k in range(3)], 'removed tags')
        # the limited form is executed for concrete names
        name = (lambda k: 'abcd'[k]) if limited else (lambda k: mkval('str', f'tag{k}'))
        self.tags = [(name(k), mkval('str', f'value{k}') if k else mkval('int', f'value{k}')) for k in range(nt)]
        if nt == 2 and not limited:
            c.assume(self.tags[0][0].z != self.tags[1][0].z)
        self.removed = [name(3 - k if limited else 10 + k) for k in range(nr)]
        if limited and nr == 2:
            self.removed[1] = 'a'                            # a tag both set and removed
        self.limit = mkval('int', 'limit') if limited else None
        self.count = mkval('int', 'count')
        c.assume(self.count.z >= 0)
        self.rows = None
        app = self.app = object.__new__(T.TaskUpdateApp)
        self.confirm = c.choose([('no confirmation', None), ('confirmation', None)], 'confirm') == 1
        app.__dict__.update(limit=self.limit, no_confirm=not self.confirm, remove_tag=(list(self.removed) if nr or c.choose([('no list', None), ('empty list', None)], 'removed list') else None),
                            cancel_mode=mode == 'cancel', revert_mode=mode == 'revert', delete_mode=mode == 'delete', field_names=[])
        app.__dict__['remove_tag'] = list(self.removed) if nr else None
        q = UQuery(self.s, (M.Task,), (Base(),))
        self.q = q if not limited else q.limit(self.limit)
        self.built = 0
        self.answers = []
        upd = SymDict(self.tags) if not limited else dict(self.tags)
        fields = dict(self.fields)
        def ask(*a):
            self.answers.append(mkval('str', 'answer'))
            return self.answers[-1]
        c.env['input'] = ask
        def build(app_):
            self.built += 1
            return self.q
        if limited:
            n = c.choose([(str(k), None) for k in range(3)], 'tasks')
            self.rows = [TaskRec(f'task{k}') for k in range(n)]
            self.rowtags = [{'a': mkval('str', f'tag{k}a'), 'x': mkval('str', f'tag{k}x')} for k in range(n)]
            for r, t in zip(self.rows, self.rowtags):
                r.__dict__['_vals']['tag'] = t
            self.keep = [dict(t) for t in self.rowtags]
            c.assume(self.count.z == n)
            c.assume(z3.Or(self.limit.z < 0, self.limit.z >= n))
        self.patches = patched((M, 'Session', self.s), (T, 'Session', self.s), (T, 'config', Config()), (T, 'json', JsonStub()), (T, 'to_json_type', lambda v: v),
                               (T.TaskUpdateApp, 'process_arguments', lambda a: (fields, upd)), (T.SearchableMixin, 'build_query', build))
    def result(self, s, q, kind):
        if kind == 'count':
            if q is self.q:
                return self.count
            n = mkval('int', self.c.fresh_name('other count'))
            self.c.assume(n.z >= 0)
            return n
        if kind == 'all' and self.rows is not None and q.lim is self.limit and q.filters == self.q.filters:
            return list(self.rows)
        return NotImplemented
    def writes(self):
        return [e for e in self.s.log if e[0] in ('bulk update', 'bulk delete', 'update', 'add')]
    def changed_fields(self, name, d):
        """The field changes of one task are exactly those requested."""
        c = self.c
        want = dict(self.fields)
        if self.mode == 'cancel':
            want['exit_status'] = -1
            t = d.get('schedule_time')
            c.prove(f'{name}: cancelled now', isinstance(t, SymTime) and z3.Or(*[t.z == r for r in c.env.get('clock_reads', [])] or [z3.BoolVal(False)]), repr(t))
            d = {k: v for k, v in d.items() if k != 'schedule_time'}
        if self.mode == 'revert':
            want.update({k: None for k in REVERTED})
        c.prove(f'{name}: exactly the requested fields', set(d) == set(want) and all(exact(d[k], want[k]) for k in want), f'{d} instead of {want}')


def confirmed(c, w):
    """Whether the changes were confirmed (symbolic condition)."""
    if not w.confirm:
        return z3.BoolVal(True)
    if len(w.answers) != 1:
        return None
    z = LOWER(STRIP(w.answers[0].z))
    return z3.Or(z == 'y', z == 'yes')


def unlimited(T, mode):
    """Without limit: one UPDATE (or DELETE) of exactly the query of the command, committed."""
    def body(c):
        w = Update(c, T, mode, False)
        with w.patches:
            w.app.update_tasks()
            writes = w.writes()
            what = 'update'
            c.prove('update: the conditions given select the tasks', w.built == 1)
            if not writes:
                nothing = mode != 'cancel' and mode != 'revert' and mode != 'delete' and not w.fields and not w.tags and not w.removed
                ok = confirmed(c, w)
                c.prove('update: nothing is changed only if no task matches, nothing is requested or it is not confirmed',
                        z3.Or(w.count.z == 0, z3.BoolVal(nothing), z3.Not(ok) if ok is not None else z3.BoolVal(False)))
                c.cover('no change')
                return
            ok = confirmed(c, w)
            c.prove('update: nothing is changed without confirmation', ok if ok is not None else False)
            c.prove('update: all changes at once', len(writes) == 1, repr(writes))
            c.prove('update: committed', not [e for e in w.s.log[max(i for i, e in enumerate(w.s.log) if e is writes[-1]):] if e[0] == 'rollback'] and w.s.log[-1][0] == 'commit', repr(w.s.log[-1]))
            e = writes[0]
            row = Row('row')
            c.prove('update: exactly the tasks selected by the conditions', e[0] in ('bulk update', 'bulk delete') and e[1].pred(row) == w.q.pred(row))
            if mode == 'delete':
                c.cover('deleted')
                c.prove('delete: the tasks are deleted', e[0] == 'bulk delete')
                return
            c.prove('update: the tasks are updated', e[0] == 'bulk update')
            d = {getattr(k, 'key', k): v for k, v in e[2].items()}
            tagv = d.pop('tag', None)
            w.changed_fields('update', d)
            if not (w.tags or w.removed):
                c.prove('update: tags are kept', tagv is None, repr(tagv))
                c.cover('fields only')
                return
            c.prove('update: tags are changed', tagv is not None)
            ops = tag_ops(c, tagv)
            want = [('set', D.path_of(zstr(k)), v) for k, v in w.tags] + [('remove', D.path_of(zstr(k))) for k in w.removed]
            good = len(ops) == len(want) and [o[0] for o in ops] == [x[0] for x in want]
            if good:
                def same(a, b):
                    return a is not None and (a.eq(b) or z3.is_true(z3.simplify(a == b)))
                for x in want:
                    mine = [o for o in ops if o[0] == x[0] and same(zstr(o[1]), x[1])]
                    c.prove('update: the tags named', len(mine) == 1, repr(ops))
                    if x[0] == 'set':
                        c.prove('update: the values of the tags', isinstance(mine[0][2], Wrapped) and exact(mine[0][2].value, x[2]), repr(mine[0]))
            c.prove('update: exactly the requested tags, removed ones last', good, f'{ops}')
            c.cover('tags')
    return body


def limited(T, mode):
    """With a limit: exactly the tasks returned by the limited query."""
    def body(c):
        w = Update(c, T, mode, True)
        c.cover(f'{len(w.rows)} tasks')
        with w.patches:
            w.app.update_tasks()
            writes = w.writes()
            ok = confirmed(c, w)
            if not writes:
                nothing = not mode and not w.fields and not w.tags and not w.removed
                c.prove('limited update: nothing is changed only if no task matches, nothing is requested or it is not confirmed',
                        z3.Or(z3.BoolVal(not w.rows), z3.BoolVal(nothing), z3.Not(ok) if ok is not None else z3.BoolVal(False)))
                c.cover('no change')
                return
            c.prove('limited update: nothing is changed without confirmation', ok if ok is not None else False)
            c.prove('limited update: committed', w.s.log[-1][0] == 'commit' or not w.s.pending() and mode != 'delete')
            asked = [q for q in w.s.queries if q.kind == 'all' and q is not None]
            ids = [r.id for r in w.rows]
            if mode == 'delete':
                c.cover('deleted')
                got = []
                for e in writes:
                    f = e[1].filters if e[0] == 'bulk delete' else ()
                    good = len(f) == 1 and isinstance(f[0], E.BinaryExpression) and f[0].operator is O.in_op and getattr(f[0].left, 'name', None) == 'id'
                    c.prove('limited delete: by identifier', good, repr(e))
                    got += list(f[0].right.value)
                c.prove('limited delete: exactly the tasks returned by the query', len(got) == len(ids) and all(any(exact(g, i) for g in got) for i in ids), repr(got))
                return
            c.prove('limited update: only updates', all(e[0] == 'update' for e in writes))
            changes = [x for e in writes for x in list(e[1])]
            c.prove('limited update: one change for each task returned by the query', len(changes) == len(ids), repr(changes))
            for k, i in enumerate(ids):
                mine = [x for x in changes if exact(x.get('id'), i)]
                c.prove('limited update: every task returned by the query is changed', len(mine) == 1)
                d = {a: b for a, b in mine[0].items() if a != 'id'}
                tagv = d.pop('tag', None)
                w.changed_fields('limited update', d)
                if w.tags or w.removed:
                    want = {**w.keep[k], **dict(w.tags)}
                    for n in w.removed:
                        want.pop(n, None)
                    c.prove('limited update: exactly the requested tags, all others kept', tagv is not None and set(tagv) == set(want) and all(exact(tagv[a], want[a]) for a in want), f'{tagv} instead of {want}')
                    c.cover('tags')
                else:
                    c.prove('limited update: tags are kept', tagv is None)
    return body


def legacy(T):
    """ID FIELD VALUE: exactly that field of that task, as typed; the identifier and unknown fields are rejected."""
    def body(c):
        c.env['iso zones'] = True
        names = FIELDS + ['no_such_field', 'query']
        field = names[c.choose([(f, None) for f in names], 'field')]
        uuid, val = mkval('str', 'uuid'), mkval('str', 'value')
        app = object.__new__(T.TaskUpdateApp)
        app.__dict__['update_args'] = [uuid, field, val]
        calls = []
        class Stale(Exception):
            pass
        old = SymDict([('kept', mkval('str', 'kept value'))])
        class Rec:
            tag = old
        missing = c.choose([('task exists', None), ('no such task', None)], 'task') == 1
        def update(i, **k):
            calls.append((i, k))
            if missing:
                raise Stale('no rows')
        new = SymDict([(mkval('str', 'tagname'), mkval('str', 'tagvalue'))])
        seen = []
        with patched((T.Task, 'update', staticmethod(update)), (T, 'StaleDataError', Stale), (T.Task, 'from_id', staticmethod(lambda i: Rec() if exact(i, uuid) else c.fail('legacy: the task given', repr(i)))),
                     (T.Tag, 'parse_cmdline_list', staticmethod(lambda a: (seen.append(a), new)[1]))):
            try:
                app.update_legacy()
            except T.ArgumentError:
                c.cover('rejected')
                c.prove('single update: only the identifier and unknown fields are rejected', field not in KIND or field == 'id', field)
                c.prove('single update: rejected before anything is changed', not calls)
                return
            except T.Task.NotFound:
                c.prove('single update: reports a missing task', missing)
                c.cover('missing')
                return
        c.prove('single update: the identifier and unknown fields are rejected', field in KIND and field != 'id', field)
        c.prove('single update: reports a missing task', not missing)
        c.prove('single update: one change of the task given', len(calls) == 1 and exact(calls[0][0], uuid), repr(calls))
        d = calls[0][1]
        c.prove('single update: only the field given', list(d) == [field], repr(d))
        if field == 'tag':
            t = d['tag']
            c.prove('single update: the tags given are parsed', len(seen) == 1 and len(seen[0]) == 1 and seen[0][0] is val)
            want = old.copy()
            want.update(new)
            items = list(t.items())
            c.prove('single update: the tag is added, others are kept', len(items) == len(want) and all(any(exact(a, k) and exact(b, v) for a, b in items) for k, v in want.items()), repr(t))
            c.cover('tag')
        else:
            c.prove('single update: the value written, read as the type of the field', value_spec(field, '', val.z, d[field]), repr(d))
            c.cover('field')
    return body


def dispatch(T):
    """Three arguments starting with an identifier are the single task form; all others a bulk update."""
    def body(c):
        n = c.choose([(str(k), None) for k in range(5)], 'arguments')
        app = object.__new__(T.TaskUpdateApp)
        args = [mkval('str', f'arg{k}') for k in range(n)]
        app.__dict__['update_args'] = args
        called = []
        with patched(*rex.wrapped(T), (T, 're', ReModule()), (T, 'ensuredb', lambda: None), (T.TaskUpdateApp, 'update_legacy', lambda a: called.append('single')),
                     (T.TaskUpdateApp, 'update_tasks', lambda a: called.append('bulk'))):
            app.run()
        c.prove('update: one of both forms', len(called) == 1)
        c.prove('update: only three arguments are a change of a single task', called[0] == 'bulk' or n == 3)
        c.cover(called[0])
    return body


def run(rep):
    T = mod('task')
    rep.run('TaskUpdateApp.process_arguments', arguments(T), covers=['accepted', 'rejected options', 'rejected argument', 'invalid tag', 'field', 'tag'])
    for m in ('', 'cancel', 'revert', 'delete'):
        rep.run(f'TaskUpdateApp.update_tasks ({m or "update"})', unlimited(T, m), covers=['no change'] + (['deleted'] if m == 'delete' else ['fields only', 'tags']))
        rep.run(f'TaskUpdateApp.update_tasks ({m or "update"}, limit)', limited(T, m), covers=['no change', '0 tasks', '2 tasks'] + (['deleted'] if m == 'delete' else ['tags']))
    rep.run('TaskUpdateApp.update_legacy', legacy(T), covers=['rejected', 'missing', 'tag', 'field'])
    rep.run('TaskUpdateApp.run', dispatch(T), covers=['single', 'bulk'])
