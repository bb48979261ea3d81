"""C26: tag validation for a dictionary with any number of entries (loop rule over the entries: an arbitrary
entry, all earlier ones having been accepted), and tags given as text."""
from pyvc.models import *
from pyvc.core import z3, EngineStop
from pyvc.values import uf, zstr, mkstr, STRIP, SymDict
from pyvc import rex, runtime
from pyvc.rex import ReModule
from contracts.textspec import typed, S

GOOD = z3.Star(rex.class_re([(48, 57), (65, 90), (97, 122), (46, 46), (95, 95), (43, 43), (45, 45)]))
KINDS = ('null', 'boolean', 'integer', 'number', 'text', 'list', 'dictionary', 'bytes', 'object')


def arbitrary(c, what, name):
    k = KINDS[c.choose([(k, None) for k in KINDS], what)]
    return {'null': lambda: None, 'boolean': lambda: mkval('bool', name), 'integer': lambda: mkval('int', name), 'number': lambda: mkval('real', name),
            'text': lambda: mkval('str', name), 'list': list, 'dictionary': dict, 'bytes': lambda: b'x', 'object': object}[k]()


def valid_value(v):
    if v is None or isinstance(v, (bool, int, float, SymBool, SymInt, SymReal)):
        return True
    z = zstr(v)
    if z is None:
        return False
    return z3.Or(STRIP(z) == '', z3.And(z3.Length(z) <= 120, core.as_z3_bool2(rex.member(z, GOOD))))


def valid_entry(k, v):
    if zstr(k) is None:
        return False
    return valid_value(v)


class Entries:
    """tag.items() of an arbitrary dictionary."""
    def __init__(self, tags, what):
        self.tags, self.what = tags, what
    def __iter__(self):
        raise Unsupported('native iteration over the entries')
    def vc_for(self, body):
        t, c = self.tags, self.tags.c
        cells = runtime.Cells(body)
        for n in cells:
            if cells.get(n) is not runtime.UNBOUND:
                raise Unsupported(f'loop variable {n}')
        if c.choose([('all accepted', None), ('entry', None)], 'entries') == 0:
            t.all_checked = True
            for n in cells:
                cells.set(n, Opaque('after the loop'))
            return None
        t.key, t.value = arbitrary(c, 'key', 'key'), arbitrary(c, 'value', 'value')
        if zstr(t.key) is None and not runtime.b_isinstance(t.key, (type(None), bool, int, float, bytes)):
            raise PathEnd('unhashable key')
        r = body((t.key, t.value))
        if r is not None:
            c.fail('ensure_valid_tag: every entry is checked, whatever comes before it')
        c.cover('accepted entry')
        c.prove('ensure_valid_tag: an accepted entry has a text key and a valid value', valid_entry(t.key, t.value), f'{t.key!r}: {t.value!r}')
        raise PathEnd('arbitrary entry')


class Tags(dict):
    def __init__(self, c):
        super().__init__()
        self.c = c
        self.key = self.value = None
        self.all_checked = False
    def items(self): return Entries(self, 'items')
    def __bool__(self): return self.c.branch(z3.Bool('any entries'))
    def __len__(self): raise Unsupported('len of the dictionary')
    def __iter__(self): raise Unsupported('iteration over keys')
    def keys(self): raise Unsupported('keys')
    def values(self): raise Unsupported('values')
    def get(self, *a): raise Unsupported('get')
    def __getitem__(self, k): raise Unsupported('getitem')


def ensure(M):
    def body(c):
        with patched((M, 're', ReModule())):
            form = ('dictionary', 'absent', 'text', 'list', 'number', 'boolean', 'object')[c.choose([(k, None) for k in ('dictionary', 'absent', 'text', 'list', 'number', 'boolean', 'object')], 'tag')]
            tag = {'dictionary': lambda: Tags(c), 'absent': lambda: None, 'text': lambda: mkval('str', 'tag'), 'list': list, 'number': lambda: mkval('int', 'tag'),
                   'boolean': lambda: mkval('bool', 'tag'), 'object': object}[form]()
            try:
                r = M.Task.ensure_valid_tag(tag)
            except (TypeError, ValueError) as e:
                if form == 'dictionary':
                    c.cover('rejected entry')
                    c.prove('ensure_valid_tag: only an invalid entry is rejected', z3.Not(core.as_z3_bool2(valid_entry(tag.key, tag.value))), f'{tag.key!r}: {tag.value!r}: {e}')
                    c.prove('ensure_valid_tag: only an entry can be the reason of a rejection', not tag.all_checked)
                else:
                    c.prove('ensure_valid_tag: absent tags are accepted', form != 'absent')
                return
            except Exception as e:
                c.fail('ensure_valid_tag: a rejection is a type or value error', repr(e))
                return
            if form == 'dictionary':
                c.cover('accepted dictionary')
                c.prove('ensure_valid_tag: a dictionary is accepted only after all its entries', tag.all_checked or z3.Not(z3.Bool('any entries')))
            else:
                c.prove('ensure_valid_tag: anything but a dictionary is rejected', form == 'absent')
    return body


def from_text(M, T):
    def body(c):
        with patched((M, 're', ReModule())):
            arg = mkval('str', 'arg')
            s = STRIP(arg.z)
            text = SymStr(s)
            try:
                t = T.Tag.from_cmdline(arg)
            except (TypeError, ValueError) as e:
                c.cover('rejected tag text')
                a, colon, b = text.partition(':')
                c.prove('Tag.from_cmdline: a tag without value is never rejected', colon == ':')
                v = STRIP(zstr(b))
                c.prove('Tag.from_cmdline: only a value that is an invalid text is rejected', z3.And(core.as_z3_bool2(typed(v, SymStr(v))), z3.Not(core.as_z3_bool2(valid_value(SymStr(v))))))
                return
            c.prove('Tag.from_cmdline: a tag', isinstance(t, T.Tag))
            name, value = t.name, t.value
            nz = zstr(name)
            if nz is None:
                c.fail('Tag.from_cmdline: the name is text', repr(name))
            a, colon, b = text.partition(':')
            if colon == ':':
                c.cover('tag with value')
                c.prove('Tag.from_cmdline: the name stands before the first colon', nz == STRIP(zstr(a)))
                c.prove('Tag.from_cmdline: the value is the typed text after the first colon', typed(STRIP(zstr(b)), value), repr(value))
                c.prove('Tag.from_cmdline: an accepted value is valid', valid_value(value), repr(value))
            else:
                c.cover('tag without value')
                c.prove('Tag.from_cmdline: without colon the text is the name', z3.Or(nz == s, nz == STRIP(s)))
                c.prove('Tag.from_cmdline: without colon the value is empty', isinstance(value, str) and value == '')
    return body


def from_list(T):
    """Every text of the list contributes its tag; a later tag of the same name replaces an earlier one."""
    def body(c):
        n = c.choose([(str(k), None) for k in range(4)], 'texts')
        texts = [mkval('str', f'arg{i}') for i in range(n)]
        tags = {i: T.Tag(name=mkval('str', f'name{i}'), value=mkval('str', f'value{i}')) for i in range(n)}
        seen = []
        def stub(x):
            i = [k for k in range(n) if texts[k] is x]
            if not i:
                c.fail('parse_cmdline_list: the texts given are parsed', repr(x))
            seen.append(i[0])
            return tags[i[0]]
        c.env['flex'] = True
        with patched((T.Tag, 'from_cmdline', stub)):
            d = T.Tag.parse_cmdline_list(texts)
        c.prove('parse_cmdline_list: every text is parsed once, in order', seen == list(range(n)), str(seen))
        want = SymDict()
        for i in range(n):
            want[tags[i].name] = tags[i].value
        c.cover(f'{n} texts')
        items = list(d.items())
        c.prove('parse_cmdline_list: one entry per name', len(items) == len(want))
        for k, v in items:
            c.prove('parse_cmdline_list: a name has its last value', exact(want.get(k), v))
    return body


def coerce(C):
    def body(c):
        v = mkval('str', 'text')
        try:
            r = C.smart_coerce(v)
        except Exception as e:
            c.fail('smart_coerce: every text has a value', repr(e))
            return
        c.cover(type(r).__name__)
        c.prove('smart_coerce: null, boolean, integer, number or the text itself', typed(v.z, r), repr(r))
    return body


def run(rep):
    M, T, C = mod('data.model'), mod('task'), mod('core.types')
    rep.run('Task.ensure_valid_tag', ensure(M), covers=['rejected entry', 'accepted entry', 'accepted dictionary'])
    rep.run('smart_coerce', coerce(C), covers=['NoneType', 'SymBool', 'SymInt', 'SymReal', 'SymStr'])
    rep.run('Tag.from_cmdline', from_text(M, T), covers=['tag with value', 'tag without value', 'rejected tag text'])
    rep.run('Tag.parse_cmdline_list', from_list(T), covers=['0 texts', '3 texts'])
