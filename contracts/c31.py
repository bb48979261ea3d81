"""C31: the task commands print the recorded values of exactly the tasks concerned."""
from pyvc.models import *
from pyvc.core import z3
from pyvc.values import SymBool, SymInt, SymStr, SymTime, SymDelta, Opt, IsoText, Opaque, uf, znum, zstr, toreal
from pyvc.runtime import concat, b_str
from pyvc import runtime
from pyvc.jsonmodel import JsonText, JsonTag, jsonable

S = z3.StringSort()
ESC = uf('json_escaped', S, S)                       # the characters of a text as written between the quotes of a JSON string
FIELDS = ['id', 'args', 'submit_id', 'submit_time', 'submit_host', 'server_id', 'server_host', 'schedule_time', 'client_id', 'client_host',
          'command', 'start_time', 'completion_time', 'exit_status', 'outpath', 'errpath', 'attempt', 'retried', 'waited', 'duration', 'previous_id', 'next_id', 'tag']
UUID = 'a3b8c1d2-0000-4000-8000-00000000beef'


class IntText(SymStr):
    """The decimal text of a number; int() is its inverse."""
    __slots__ = ('num',)
    def __init__(self, num):
        super().__init__(b_str(num).z)
        self.num = num
    def vc_int(self):
        return self.num


def esc(z):
    return ESC(z)


class Rec(TaskRec):
    """A task as recorded; its tags are a dictionary."""
    def _lazy(self, a):
        s, nm = self.schema[a], f'{self._name}.{a}'
        v = JsonTag(nm) if a == 'tag' else mkval(s.lstrip('?'), nm)
        return Opt(z3.Bool(nm + '.null'), v) if s.startswith('?') else v


def tagname(v):
    return z3.String(f'json({v.name})')


def jtext(v):
    """JSON text of a recorded value (contract of json.dumps; datetimes are not accepted)."""
    if v is None:
        return 'null'
    if isinstance(v, Opt):
        return jtext(v.force())
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, SymStr):
        return SymStr(z3.Concat(z3.StringVal('"'), esc(v.z), z3.StringVal('"')))
    if isinstance(v, str):
        import json
        return json.dumps(v)
    if isinstance(v, SymBool):
        return SymStr(z3.If(v.z, z3.StringVal('true'), z3.StringVal('false')))
    if isinstance(v, SymInt):
        return IntText(v)
    if isinstance(v, int):
        return str(v)
    if isinstance(v, (SymTime, SymDelta)):
        raise TypeError('Object of type datetime is not JSON serializable')
    if isinstance(v, Opaque):
        return SymStr(tagname(v))
    raise Unsupported(f'json.dumps of {type(v)}')


class Json:
    @staticmethod
    def dumps(v, **kw):
        if set(kw) - {'indent', 'sort_keys', 'separators'}:
            raise Unsupported(f'json.dumps options {sorted(kw)}')
        if isinstance(v, (dict, list, SymSeq)) and not isinstance(v, Opaque):
            if kw.get('sort_keys'):
                return Wrapped('sorted json', v)
            return Wrapped('json', frozen(v) if isinstance(v, SymSeq) else v)
        return jtext(v)


def shown(v):
    """Specification: how one recorded value is shown (texts without the quotes), as a z3 term."""
    if isinstance(v, Opt):
        return z3.If(v.null, z3.StringVal('null'), shown(v.v))
    if isinstance(v, SymTime):
        return esc(IsoText(v).z)
    if isinstance(v, SymStr):
        return esc(v.z)
    return zstr(jtext(v))


def raw(v):
    """Specification: texts verbatim, everything else as JSON."""
    if isinstance(v, Opt):
        return z3.If(v.null, z3.StringVal('null'), raw(v.v))
    if isinstance(v, SymTime):
        return IsoText(v).z
    if isinstance(v, SymStr):
        return v.z
    return zstr(jtext(v))


class Out:
    """Standard output: printed lines and what else is written to it, in order."""
    def __init__(self, c, tty=False):
        self.c, self.lines, self.tty = c, SymSeq([]), tty
        self.name = '<stdout>'
    def vc_print(self, args, kw):
        if set(kw) - {'file', 'flush'} or len(args) != 1:
            raise Unsupported(f'print with {sorted(kw)} and {len(args)} values')
        self.lines.append(args[0])
    def isatty(self):
        return self.tty
    def __getattr__(self, a):
        raise Unsupported(f'stdout.{a}')


class ConsoleC:
    """rich.console.Console(): prints to standard output."""
    def __init__(self, out):
        self.out = out
    def __call__(self, *a, **k):
        if a or k:
            raise Unsupported('Console options')
        return self
    def print(self, x):
        self.out.lines.append(x)


class TableC:
    def __init__(self):
        self.made = []
    def __call__(self, **k):
        t = Grid()
        self.made.append(t)
        return t


class Grid(Sym):
    def __init__(self):
        self.columns, self.rows = SymSeq([]), SymSeq([])
    def add_column(self, name, **k):
        if k:
            raise Unsupported('column options')
        self.columns.append(name)
    def add_row(self, *cells, **k):
        if k:
            raise Unsupported('row options')
        self.rows.append(Wrapped('row', list(cells)))


class PlainText(Wrapped):
    """rich.text.Text(s): the text itself, nothing in it is markup."""
    def __init__(self, s, *a, **k):
        if a or k:
            raise Unsupported('Text options')
        super().__init__('text', s)


def syntax(code, lexer=None, **k):
    return code                       # displays the code


def search(c, fields, fmt, delimiter='<default>'):
    """The search command after parsing, and any list of found tasks."""
    T = mod('task')
    out = Out(c)
    c.env['stdout'] = out
    app = object.__new__(T.TaskSearchApp)
    app.field_names = list(fields)
    app.output_format = fmt
    app.output_delimiter = delimiter
    results = SymSeq([Var('found', lambda n: tuple(getattr(Rec(n), f) for f in fields))])
    return T, app, out, results


def rows(fields, f):
    """What is expected for each found task."""
    return SymSeq([Map(Var('found', lambda n: tuple(getattr(Rec(n), x) for x in fields)), [(z3.BoolVal(True), [f([getattr(Rec('found'), x) for x in fields])])])])


SINGLE = [['args'], ['exit_status'], ['retried'], ['submit_time'], ['completion_time'], ['command'], ['attempt'], ['tag'], ['duration']]
SOME = SINGLE + [['tag', 'args'], ['exit_status', 'retried', 'completion_time'], ['args', 'tag', 'args']]


def env(c, T, out, *more):
    import io
    return patched((T, 'json', Json), (T, 'sys', Module(stdout=out, stderr=Opaque('stderr'))), (T, 'Console', ConsoleC(out)), (T, 'Syntax', syntax),
                   (T, 'Text', PlainText), *more)


def printer(fmt):
    def body(c):
        fields = SOME[c.choose([(','.join(f), None) for f in SOME], 'fields')]
        T, app, out, results = search(c, fields, fmt)
        out.tty = fmt == 'json' and c.choose([('no terminal', None), ('terminal', None)], 'tty') == 1
        gen = results.segs[0].gen
        tables = TableC()
        written = SymSeq([])
        writers = []
        class Writer(Sym):
            def writerow(self, row):
                written.append(Wrapped('csv', list(row)))
        def writer(stream, **k):
            c.prove('csv: written to standard output with the delimiter asked for', stream is out and set(k) == {'delimiter'} and k['delimiter'] is app.output_delimiter)
            writers.append(1)
            return Writer()
        if fmt in ('plain', 'csv'):
            app.output_delimiter = SymStr(z3.String('delimiter'))
        with env(c, T, out, (T, 'Table', tables), (T, 'csv', Module(writer=writer))):
            getattr(app, f'print_{fmt}')(results)
        var = results.segs[0]
        def want(v):
            return SymSeq([Map(var, [(z3.BoolVal(True), [v])])])
        if fmt == 'plain':
            line = []
            for i, v in enumerate(gen):
                line += ([app.output_delimiter] if i else []) + [SymStr(shown(v))]
            c.prove('plain: one line per task found with exactly the requested fields in order, nothing lost of a value', seq_eq(out.lines, want(concat(line))))
        elif fmt == 'json':
            c.prove('json: one document', len(out.lines.segs) == 1 and isinstance(out.lines.segs[0].v, Wrapped) and out.lines.segs[0].v.kind == 'json')
            doc = out.lines.segs[0].v.value
            c.prove('json: one object per task found with exactly the requested fields and their values', seq_eq(doc, want({f: jvalue(v) for f, v in zip(fields, gen)})))
        elif fmt == 'csv':
            c.prove('csv: nothing else is printed', seq_eq(out.lines, []))
            c.prove('csv: the field names, then one record per task found with exactly the requested fields, texts verbatim',
                    len(writers) == 1 and seq_eq(written, cat(SymSeq([Unit(Wrapped('csv', list(fields)))]), want(Wrapped('csv', [SymStr(raw(v)) for v in gen])))))
        else:
            c.prove('table: one table is shown', len(tables.made) == 1 and len(out.lines.segs) == 1 and out.lines.segs[0].v is tables.made[0])
            t = tables.made[0]
            c.prove('table: one column per requested field', seq_eq(t.columns, list(fields)))
            c.prove('table: one row per task found with exactly the requested fields, nothing read as markup',
                    seq_eq(t.rows, want(Wrapped('row', [Wrapped('text', SymStr(shown(v))) for v in gen]))))
        c.cover(f'printed {fmt}')
    return body


def jvalue(v):
    """The JSON value of a recorded value."""
    if isinstance(v, Opt):
        if isinstance(v.v, SymTime):
            return Opt(v.null, IsoText(v.v))
        return v
    return IsoText(v) if isinstance(v, SymTime) else v


def search_normal(c):
    """Every task found is shown in full, after a separator line."""
    T, app, out, results = search(c, FIELDS, 'normal')
    var, gen = results.segs[0], results.segs[0].gen
    class Model:
        columns = {f: str for f in FIELDS}
        @staticmethod
        def from_dict(d):
            return Wrapped('task', dict(d))
    def show(task):                                  # contract of print_normal (below)
        out.lines.append(Wrapped('shown', task))
    with env(c, T, out, (T, 'print_normal', show), (T, 'Task', Model)):
        app.print_normal(results)
    want = SymSeq([Map(var, [(z3.BoolVal(True), ['---', Wrapped('shown', Wrapped('task', dict(zip(FIELDS, gen))))])])])
    c.prove('normal: each task found is shown once, with its own values', seq_eq(out.lines, want))
    c.cover('normal')


LAYOUT = [('          id: ', ['id']), ('        args: ', ['args']), ('     command: ', ['command']), (' exit_status: ', ['exit_status']), ('   submitted: ', ['submit_time']),
          ('   scheduled: ', ['schedule_time']), ('     started: ', ['start_time', ' (waited: ', 'waited', ')']), ('   completed: ', ['completion_time', ' (duration: ', 'duration', ')']),
          (' submit_host: ', ['submit_host', ' (', 'submit_id', ')']), (' server_host: ', ['server_host', ' (', 'server_id', ')']), (' client_host: ', ['client_host', ' (', 'client_id', ')']),
          ('     attempt: ', ['attempt']), ('     retried: ', ['retried']), ('     outpath: ', ['outpath']), ('     errpath: ', ['errpath']), (' previous_id: ', ['previous_id']),
          ('     next_id: ', ['next_id']), ('        tags: ', ['tag'])]


def show_task(c):
    """print_normal(task): one line per field with the value recorded for it."""
    T = mod('task')
    out = Out(c)
    c.env['stdout'] = out
    rec = Rec('task')
    n = c.choose([('no tag', None), ('one tag', None), ('two tags', None)], 'tags')
    tags = {f'key{i}': Opaque(f'value{i}') for i in range(n)}
    rec.__dict__['_vals']['tag'] = tags
    rec.to_dict = None
    vals = {f: getattr(rec, f) for f in FIELDS}
    class View:
        def __getattr__(self, a):
            if a in vals:
                return vals[a]
            raise Unsupported(f'task.{a}')
        def to_dict(self):
            return dict(vals)
    def value(v):                                   # contract of format_value (print_plain above)
        return SymStr(shown(v)) if not isinstance(v, dict) else 'tags'
    for f in ('waited', 'duration'):
        c.assume(vals[f].v.z >= 0)
    def inttext(v):
        if isinstance(v, Opt) and isinstance(v.v, SymInt) and not c.feasible(v.null):
            return IntText(v.v)
        return value(v)
    texts = {k: SymStr(z3.String(f'tag text {k}')) for k in tags}
    def tagtext(k, v):                              # contract of format_tag (below)
        c.prove('print_normal: every tag with its own value', v is tags[k])
        return texts[k]
    isnull = {f: c.branch(vals[f].null, f'{f} is null') for f in ('waited', 'duration')}
    with env(c, T, out, (T, 'format_value', inttext), (T, 'format_tag', tagtext)):
        T.print_normal(View())
    want = []
    for label, items in LAYOUT:
        line = [label]
        for x in items:
            if x == 'tag':
                for i, t in enumerate(texts.values()):
                    line += [', '] * (i > 0) + [t]
            elif x in ('waited', 'duration'):
                line.append('null' if isnull[x] else b_str(SymDelta(toreal(vals[x].v.z))))
            elif x in vals:
                line.append(SymStr(shown(vals[x])))
            else:
                line.append(x)
        want.append(concat(line))
    c.prove('print_normal: every field with its recorded value', seq_eq(out.lines, SymSeq([Unit(w) for w in want])))
    c.cover(f'shown {n}')


def format_tag(c):
    T = mod('task')
    key = SymStr(z3.String('key'))
    kind = c.choose([(k, None) for k in ('text', 'int', 'bool', 'real', 'null')], 'value')
    v = [SymStr(z3.String('value')), SymInt(z3.Int('value')), SymBool(z3.Bool('value')), SymReal(z3.Real('value')), None][kind]
    r = T.format_tag(key, v)
    if kind == 0 and c.branch(v.z == z3.StringVal(''), 'blank'):
        c.prove('format_tag: a tag without value is its name', veq(r, key))
    else:
        c.prove('format_tag: name and value', veq(r, concat([key, ':', b_str(v) if v is not None else 'None'])))
    c.cover(f'format_tag {kind}')


def output_format(c):
    """Format and delimiter that are used, and combinations that are refused."""
    T = mod('task')
    fields = [list(FIELDS), ['args'], ['args', 'id']][c.choose([('all', None), ('one', None), ('two', None)], 'fields')]
    fmts = ['<default>', 'normal', 'plain', 'table', 'json', 'csv']
    fmt = fmts[c.choose([(f, None) for f in fmts], 'format')]
    app = object.__new__(T.TaskSearchApp)
    app.field_names, app.output_format = list(fields), fmt
    given = c.choose([('default', None), ('delimiter', None)], 'delimiter') == 1
    d = SymStr(z3.String('delimiter'))
    if given:
        c.assume(d.z != z3.StringVal('<default>'))
    app.output_delimiter = d if given else '<default>'
    every = len(fields) == len(FIELDS)
    kind = fmt if fmt != '<default>' else 'normal' if every else 'plain'
    n = z3.Length(d.z)
    bad = [kind == 'normal' and not every, given and kind not in ('plain', 'csv')]
    wrong = z3.Or(z3.BoolVal(any(bad)), z3.And(z3.BoolVal(given), n > 100), z3.And(z3.BoolVal(given and kind == 'csv'), n != 1))
    try:
        app.check_output_format()
    except T.ArgumentError:
        c.prove('format: only meaningless combinations are refused', SymBool(wrong))
        c.cover('refused')
        return
    c.prove('format: meaningless combinations are refused', SymBool(z3.Not(wrong)))
    c.prove('format: the one asked for, or everything in full, or the chosen fields as plain text', app.output_format == kind)
    c.prove('format: the fields stay as asked for', app.field_names == fields)
    if kind in ('plain', 'csv'):
        c.prove('format: the delimiter asked for, or tab and comma', veq(app.output_delimiter, d if given else ',' if kind == 'csv' else '\t'))
    c.cover('accepted')


def field_names(c):
    T = mod('task')
    app = object.__new__(T.TaskSearchApp)
    name = SymStr(z3.String('name'))
    app.field_names = [['args', name], [name], [name, 'id'], ['args'], []][c.choose([(str(i), None) for i in range(5)], 'fields')]
    sym = any(x is name for x in app.field_names)
    known = z3.Or(*[name.z == z3.StringVal(f) for f in FIELDS])
    class Columns(dict):
        def vc_contains(self, x):
            return SymBool(known) if x is name else x in FIELDS
    with patched((T, 'Task', Module(columns=Columns.fromkeys(FIELDS)))):
        try:
            app.check_field_names()
        except T.ArgumentError:
            c.prove('fields: only an unknown field is refused', SymBool(z3.Not(known)) if sym else False)
            c.cover('field refused')
            return
    c.prove('fields: an unknown field is refused', SymBool(known) if sym else True)
    c.cover('fields accepted')


class Query:
    def __init__(self, log, n, found):
        self.log, self.n, self.found = log, n, found
    def count(self):
        self.log.append('count')
        return self.n
    def all(self):
        self.log.append('all')
        return self.found
    def __getattr__(self, a):
        raise Unsupported(f'query.{a}')


def search_run(c):
    """`hs task search`: what is asked for is looked up and printed."""
    T = mod('task')
    out = Out(c)
    c.env['stdout'] = out
    log = []
    mode = ['keys', 'values', 'count', 'list'][c.choose([(m, None) for m in ('keys', 'values', 'count', 'list')], 'mode')]
    fmt = ['normal', 'plain', 'table', 'json', 'csv'][c.choose([(f, None) for f in ('normal', 'plain', 'table', 'json', 'csv')], 'format')] if mode == 'list' else 'plain'
    n, found = SymInt(z3.Int('count')), Opaque('found')
    def step(name, r=None):
        def f(self, *a):
            log.append(name if not a else (name, *a))
            return r
        return f
    pp = {f'print_{f}': step(f'print_{f}') for f in ('plain', 'table', 'json', 'csv')}
    pp['print_normal'] = staticmethod(lambda *a: log.append(('print_normal', *a)))
    pp['print_tag_keys'] = staticmethod(lambda: log.append('keys'))
    App = type('App', (T.TaskSearchApp,), dict(pp, print_tag_values=step('values'), check_field_names=step('check fields'),
                                               check_output_format=step('check format'), build_query=lambda self: (log.append('query'), Query(log, n, found))[1]))
    app = object.__new__(App)
    app.list_tag_keys, app.list_tag_values, app.show_count = mode == 'keys', mode == 'values', mode == 'count'
    app.output_format = fmt
    with env(c, T, out, (T, 'ensuredb', lambda *a, **k: log.append('ensuredb'))):
        app.run()
    c.prove('search: the database is made ready first', log[:1] == ['ensuredb'] and log.count('ensuredb') == 1)
    rest = [x for x in log[1:] if x not in ('check fields', 'check format')]
    if mode in ('keys', 'values'):
        c.prove(f'search: tag {mode} are listed and nothing else', rest == [mode] and not out.lines.segs)
    else:
        c.prove('search: fields and format are checked before anything is looked up', ordered([(x, (), {}) for x in log if isinstance(x, str)], 'check fields', 'query') and ordered([(x, (), {}) for x in log if isinstance(x, str)], 'check format', 'query'))
        if mode == 'count':
            c.prove('search: the number of tasks found is printed and nothing else', rest == ['query', 'count'] and len(out.lines.segs) == 1 and out.lines.segs[0].v is n)
        else:
            c.prove('search: all tasks found are printed in the format asked for and nothing else',
                    rest == ['query', 'all', (f'print_{fmt}', found)] and not out.lines.segs)
    c.cover(f'search {mode}')


class Shown(Wrapped):
    pass


def info_run(c):
    """`hs task info`: exactly one thing about the task asked for is printed."""
    T = mod('task')
    out = Out(c)
    c.env['stdout'] = out
    log = []
    kinds = ['field', 'stdout', 'stderr', 'normal', 'json', 'yaml']
    kind = kinds[c.choose([(k, None) for k in kinds], 'what')]
    bad = c.choose([('known id', None), ('bad id', None)], 'id') == 1
    stdout, stderr = Opaque('stdout'), Opaque('stderr')
    task = Module(outpath=Opaque('task.outpath'), errpath=Opaque('task.errpath'))
    def lookup(self):
        log.append(('task', self.uuid))
        return task
    def check(u):
        log.append(('check', u))
        if bad:
            raise T.ArgumentError('bad')
    App = type('App', (T.TaskInfoApp,), dict(task=property(lookup), outpath=Opaque('outpath'), errpath=Opaque('errpath'),
                                             print_field=lambda self: log.append('field'), print_formatted=lambda self: log.append('formatted'),
                                             print_file=lambda self, *a, **k: log.append(('file', bind(T.TaskInfoApp.print_file, a, k, skip_self=True)))))
    app = object.__new__(App)
    app.uuid = UUID
    app.extract_field = 'args' if kind == 'field' else None
    app.print_stdout, app.print_stderr = kind == 'stdout', kind == 'stderr'
    app.output_format = kind if kind in ('json', 'yaml') else 'normal'
    with env(c, T, out, (T, 'sys', Module(stdout=stdout, stderr=stderr)), (T, 'ensuredb', lambda *a, **k: log.append('ensuredb')), (T, 'check_uuid', check),
             (T, 'print_normal', lambda t: log.append(('normal', t)))):
        try:
            app.run()
        except T.ArgumentError:
            c.prove('info: only a malformed id is refused', bad)
            c.prove('info: nothing is shown for a malformed id', [x for x in log if x != 'ensuredb'] == [('check', UUID)] and not out.lines.segs)
            c.cover('info refused')
            return
    c.prove('info: a malformed id is refused', not bad)
    i = log.index(('check', UUID)) if ('check', UUID) in log else len(log)
    c.prove('info: the database is made ready and the id is checked first', set(map(str, log[:i])) <= {'ensuredb'} and 'ensuredb' in log and ('check', UUID) in log)
    rest = [x for x in log if x not in ('ensuredb', ('check', UUID)) and x[:1] != ('task',)]
    ok = len(rest) == 1
    if ok and kind in ('stdout', 'stderr'):
        b = rest[0][1] if rest[0][0] == 'file' else None
        o = kind == 'stdout'
        ok = b is not None and b['local_path'] is (App.outpath if o else App.errpath) and b['task_path'] is (task.outpath if o else task.errpath) and b['out_stream'] is (stdout if o else stderr)
    elif ok:
        ok = rest[0] == {'field': 'field', 'normal': ('normal', task), 'json': 'formatted', 'yaml': 'formatted'}[kind]
    c.prove('info: exactly what was asked for is printed', ok and not out.lines.segs)
    c.cover(f'info {kind}')


def info_formatted(c):
    """Field and formatted output of `hs task info`."""
    T = mod('task')
    out = Out(c, tty=c.choose([('no terminal', None), ('terminal', None)], 'tty') == 1)
    c.env['stdout'] = out
    rec = Rec('task')
    data = {f: jvalue(getattr(rec, f)) for f in FIELDS}
    fmt = ['normal', 'json', 'yaml'][c.choose([(f, None) for f in ('normal', 'json', 'yaml')], 'format')]
    what = c.choose([('all', None)] + [(f, None) for f in FIELDS], 'what') if fmt != 'normal' else 1 + c.choose([(f, None) for f in FIELDS], 'field')
    app = object.__new__(T.TaskInfoApp)
    n = c.choose([('no tag', None), ('two tags', None)], 'tags') * 2 if what == len(FIELDS) else 0
    tags = {f'key{i}': Opaque(f'value{i}') for i in range(n)}
    texts = {k: SymStr(z3.String(f'tag text {k}')) for k in tags}
    def tagtext(k, v):
        c.prove('info: every tag with its own value', v is tags[k])
        return texts[k]
    data['tag'] = tags
    app.__dict__.update(uuid=UUID, output_format=fmt, extract_field=None if not what else FIELDS[what - 1], task=Module(to_json=lambda: dict(data), tag=tags))
    def dump(v, **kw):
        if set(kw) - {'indent', 'sort_keys'}:
            raise Unsupported('yaml.dump options')
        return Wrapped('yaml' if kw.get('sort_keys', True) is False else 'sorted yaml', v)
    class Yaml:
        pass
    Yaml.dump = staticmethod(dump)
    with env(c, T, out, (T, 'yaml', Yaml), (T, 'format_tag', tagtext)):
        app.print_field() if what else app.print_formatted()
    c.prove('info: one text is printed', len(out.lines.segs) == 1 and isinstance(out.lines.segs[0], Unit))
    v = out.lines.segs[0].v
    f = app.extract_field
    if f == 'tag' and fmt == 'normal':
        line = ['']
        for i, t in enumerate(texts.values()):
            line += [', '] * (i > 0) + [t]
        c.prove('info: the tags', veq(v, concat(line)))
    elif f is not None and f != 'tag':
        c.prove('info: exactly the field asked for, texts verbatim', veq(v, SymStr(raw(data[f]))))
    else:
        want = data if f is None else tags
        kinds = {'json': ('json', 'sorted json'), 'yaml': ('yaml', 'sorted yaml')}[fmt]
        c.prove('info: all recorded values in the format asked for', isinstance(v, Wrapped) and v.kind in kinds and veq(v.value, want))
    c.cover(f'info formatted {fmt}')


def info_file(c):
    """The recorded output is fetched if it is neither here nor written on this host, and copied to the stream."""
    T = mod('task')
    log = []
    app = object.__new__(T.TaskInfoApp)
    paths = {n: Module(name=n) for n in ('outpath', 'errpath', 'task.outpath', 'task.errpath')}
    same = c.choose([('other host', None), ('this host', None)], 'host') == 1
    here = c.choose([('missing', None), ('present', None)], 'file') == 1
    none = c.choose([('recorded', None), ('none', None)], 'path') == 1
    which = c.choose([('outpath', None), ('errpath', None)], 'which')
    which = ('outpath', 'errpath')[which]
    host = 'this-host' if same else 'other-host'
    app.__dict__.update(uuid=UUID, outpath=paths['outpath'], errpath=paths['errpath'],
                        task=Module(outpath=paths['task.outpath'], errpath=paths['task.errpath'], client_host=host))
    class Remote:
        def __init__(self, h):
            log.append(('connect', h))
        def __enter__(self):
            return self
        def __exit__(self, *a):
            log.append('disconnect')
        def get_file(self, a, b):
            log.append(('get', a, b))
    class File:
        def __enter__(self):
            return self
        def __exit__(self, *a):
            log.append('close')
    src, stream = File(), Module(name='stream')
    c.env['open'] = lambda p, mode='r', **k: (log.append(('open', p, mode)), src)[1]
    there = {}
    def exists(p):
        if p is paths[which]:
            return here or any(isinstance(x, tuple) and x[0] == 'get' and x[2] is p for x in log)
        if p is not paths['outpath'] and p is not paths['errpath']:
            raise Unsupported(f'existence of {p}')
        if p not in there:
            there[p] = c.choose([('other missing', None), ('other present', None)], 'other file') == 1
        return there[p] or any(isinstance(x, tuple) and x[0] == 'get' and x[2] is p for x in log)
    path = Module(exists=exists, isfile=exists)
    with patched((T, 'SSHConnection', Remote), (T, 'HOSTNAME', 'this-host'), (T, 'copyfileobj', lambda a, b, *n: log.append(('copy', a, b))), (T, 'os', Module(path=path))):
        try:
            app.print_file(app.__dict__[which], None if none else paths[f'task.{which}'], stream)
        except RuntimeError:
            c.prove('file: refused only if no output was recorded', none and not log)
            c.cover('no file')
            return
    c.prove('file: a task without recorded output is an error', not none)
    fetch = not here and not same
    conn = [x for x in log if x in (('connect', host), 'disconnect') or x[0] == 'get']
    want = {('get', paths['task.outpath'], paths['outpath']), ('get', paths['task.errpath'], paths['errpath'])}
    mine = ('get', paths[f'task.{which}'], paths[which])
    i = log.index(('open', paths[which], 'r')) if ('open', paths[which], 'r') in log else -1
    c.prove('file: the output of the task is opened', i >= 0)
    if fetch:
        gets = [x for x in log if x[0] == 'get']
        c.prove('file: fetched from the host of its client first, to its own place', ('connect', host) in log[:i] and mine in log[:i] and all(any(g is w or g == w for w in want) for g in gets))
    else:
        c.prove('file: nothing is fetched if it is here', not conn)
    c.prove('file: its content is copied to the stream asked for', [x for x in log if x[0] == 'copy'] == [('copy', src, stream)] and ('copy', src, stream) in log[i:])
    c.cover(f'file fetched={fetch}')


def info_paths(c):
    """Output files of a task: distinct files named by its identifier."""
    T = mod('task')
    app = object.__new__(T.TaskInfoApp)
    i = SymStr(z3.String('id'))
    lib = SymStr(z3.String('lib'))
    app.__dict__.update(uuid=i, task=Module(id=i))
    J = uf('path_join', S, S, S)
    def join(*p):
        r = p[0]
        for x in p[1:]:
            r = SymStr(J(zstr(r), zstr(x)))
        return r
    with patched((T, 'default_path', Module(lib=lib)), (T, 'os', Module(path=Module(join=join)))):
        o, e = app.outpath, app.errpath
    base = join(lib, 'task')
    c.prove('file: standard output of the task', veq(o, join(base, concat([i, '.out']))))
    c.prove('file: standard error of the task', veq(e, join(base, concat([i, '.err']))))


def lookup(c):
    T = mod('task')
    asked = []
    rec = Opaque('record')
    app = object.__new__(T.TaskInfoApp)
    app.uuid = SymStr(z3.String('uuid'))
    def from_id(i, **k):
        asked.append(i)
        return rec
    with patched((T, 'Task', Module(from_id=from_id))):
        t = app.task
        u = app.task
    c.prove('info: the task asked for is looked up', t is rec and u is rec and all(x is app.uuid for x in asked) and len(asked) >= 1)


class Words(SymSeq):
    pass


def submit_run(which):
    """`hs task submit` and `hs task run`: one new task with the given arguments and tags."""
    def body(c):
        T = mod('task')
        out = Out(c)
        c.env['stdout'] = out
        log = []
        n = c.choose([('one', None), ('two', None), ('three', None)], 'words') + 1
        words = [SymStr(z3.String(f'word{i}')) for i in range(n)]
        taglist = [None, [], [Opaque('tag')]][c.choose([('none', None), ('empty', None), ('tags', None)], 'tags')]
        tags = Opaque('parsed')
        class TagC:
            @staticmethod
            def parse_cmdline_list(x):
                log.append(('parse', x))
                return tags
        task = Module(id=Opaque('id'))
        made = []
        def new(*a, **k):
            made.append((a, k))
            log.append('new')
            return task
        App = T.TaskSubmitApp if which == 'submit' else T.TaskRunApp
        app = object.__new__(App)
        app.argv, app.taglist = words, taglist
        app.interval = SymInt(z3.Int('interval'))
        def sub(name):
            class Sub:
                def __init__(self, **k):
                    self.k = k
                def run(self):
                    log.append((name, self.k))
            return Sub
        with env(c, T, out, (T, 'Task', Module(new=new, add=lambda t: log.append(('add', t)))), (T, 'Tag', TagC), (T, 'ensuredb', lambda *a, **k: log.append('ensuredb')),
                 (T, 'TaskWaitApp', sub('wait')), (T, 'TaskInfoApp', sub('info'))):
            app.run()
        line = []
        for i, w in enumerate(words):
            line += [' '] * (i > 0) + [w]
        c.prove(f'{which}: one task is made and stored', len(made) == 1 and log.count(('add', task)) == 1 and not made[0][0])
        k = made[0][1]
        c.prove(f'{which}: it has the arguments given', veq(k['args'], concat(line)))
        c.prove(f'{which}: it has the tags given and is new otherwise', set(k) <= {'args', 'tag'} and (k.get('tag') is tags if taglist else not k.get('tag')) and all(x[1] is taglist for x in log if x[0] == 'parse'))
        names = [x if isinstance(x, str) else x[0] for x in log]
        c.prove(f'{which}: the database is made ready first', names.index('ensuredb') < min(names.index('add'), names.index('new')) and names.index('new') < names.index('add'))
        if which == 'submit':
            c.prove('submit: prints the id of the new task', len(out.lines.segs) == 1 and out.lines.segs[0].v is task.id)
        else:
            rest = [x for x in log if x[0] in ('wait', 'info')]
            c.prove('run: waits for the task with the given interval', rest[0][0] == 'wait' and rest[0][1] == {'uuid': task.id, 'interval': app.interval} and rest[0][1]['interval'] is app.interval and names.index('wait') > names.index('add'))
            c.prove('run: then shows what it wrote, standard output first', rest[1:] == [('info', {'uuid': task.id, 'print_stdout': True}), ('info', {'uuid': task.id, 'print_stderr': True})] and not out.lines.segs)
        c.cover(which)
    return body


def remote(c):
    """SSHConnection: the file asked for comes from the host asked for; the connection is closed whatever happens."""
    R = mod('core.remote')
    host, src, dst = (SymStr(z3.String(n)) for n in ('host', 'remote path', 'local path'))
    profile = c.choose([('no file', None), ('no profile', None), ('profile', None), ('full profile', None)], 'ssh configuration')
    fails = c.choose([('fine', None), ('fails', None)], 'transfer') == 1
    prof = [None, None, {}, {'hostname': 'real.host', 'user': 'me', 'identityfile': ['k'], 'proxycommand': 'jump'}][profile]
    log = []
    class Sftp:
        def get(self, a, b):
            log.append(('get', a, b))
            if fails:
                raise OSError('gone')
        def close(self): log.append(('sftp closed',))
    class Client:
        def __init__(self): log.append(('client',))
        def set_missing_host_key_policy(self, p): pass
        def connect(self, **kw): log.append(('connect', kw))
        def open_sftp(self):
            log.append(('sftp',))
            return Sftp()
        def close(self): log.append(('closed',))
    class Parser:
        def parse(self, s): log.append(('parsed', s))
        def lookup(self, h): return prof if h is host else None
    class File:
        def __enter__(self): return self
        def __exit__(self, *a): log.append(('file closed',))
    c.env['open'] = lambda *a, **k: File()
    path = Module(path=Module(exists=lambda p: profile != 0))
    err = None
    with patched((R, 'SSHClient', Client), (R, 'SSHConfigParser', Parser), (R, 'AutoAddPolicy', lambda: None), (R, 'ProxyCommand', lambda t: ('via', t)), (R, 'os', path)):
        try:
            with R.SSHConnection(host) as r:
                r.get_file(src, dst)
                r.get_file(dst, src)
        except OSError as e:
            err = e
    names = [x[0] for x in log if x[0] not in ('parsed', 'file closed', 'client')]
    conn = [x[1] for x in log if x[0] == 'connect']
    c.prove('remote: one connection', len(conn) == 1 and names[0] == 'connect')
    want = prof or {}
    c.prove('remote: to the host asked for, as configured for it', 'hostname' in conn[0] and veq(conn[0]['hostname'], want.get('hostname', host)))
    c.prove('remote: as the user configured for it', conn[0].get('username') == want.get('user') and conn[0].get('key_filename') == want.get('identityfile') and conn[0].get('sock') == (('via', 'jump') if profile == 3 else None))
    gets = [x[1:] for x in log if x[0] == 'get']
    c.prove('remote: the files asked for, in order', len(gets) == (1 if fails else 2) and all(a is b for g, w in zip(gets, [(src, dst), (dst, src)]) for a, b in zip(g, w)), repr(gets))
    c.prove('remote: an error is passed on', (err is not None) == fails)
    c.prove('remote: closed again', names.count('closed') == 1 and names.count('sftp closed') == names.count('sftp') == 1)
    c.cover(f'remote {profile} {fails}')


def run(rep):
    rep.run('SSHConnection.get_file', remote, covers=['remote 0 False', 'remote 1 True', 'remote 3 False'])
    for f in ('plain', 'json', 'csv', 'table'):
        rep.run(f'TaskSearchApp.print_{f}', printer(f), covers=[f'printed {f}'])
    rep.run('TaskSearchApp.print_normal', search_normal, covers=['normal'])
    rep.run('print_normal', show_task, covers=['shown 0', 'shown 1', 'shown 2'])
    rep.run('format_tag', format_tag, covers=[f'format_tag {i}' for i in range(5)])
    rep.run('TaskSearchApp.check_output_format', output_format, covers=['refused', 'accepted'])
    rep.run('TaskSearchApp.check_field_names', field_names, covers=['field refused', 'fields accepted'])
    rep.run('TaskSearchApp.run', search_run, covers=['search keys', 'search values', 'search count', 'search list'])
    rep.run('TaskInfoApp.run', info_run, covers=['info refused', 'info field', 'info stdout', 'info stderr', 'info normal', 'info json', 'info yaml'])
    rep.run('TaskInfoApp.print_field', info_formatted, covers=['info formatted normal', 'info formatted json', 'info formatted yaml'])
    rep.run('TaskInfoApp.print_file', info_file, covers=['no file', 'file fetched=True', 'file fetched=False'])
    rep.run('TaskInfoApp.outpath', info_paths)
    rep.run('TaskInfoApp.task', lookup)
    rep.run('TaskSubmitApp.run', submit_run('submit'), covers=['submit'])
    rep.run('TaskRunApp.run', submit_run('run'), covers=['run'])
