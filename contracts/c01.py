"""C01: unpack(pack(record)) has every field equal to the original, for all records."""
from pyvc.models import *
from pyvc.core import z3
from pyvc.values import Opt, OffTime
from pyvc.jsonmodel import JsonModule, JsonTag

# the documented record: field -> sort ('?': nullable); independent of the table in the code
TASK = TaskRec.schema
CLIENT = {'id': 'str', 'host': 'str', 'server_id': 'str', 'server_host': 'str', 'connected_at': '?time', 'disconnected_at': '?time', 'evicted': 'bool'}


def value(sort, name):
    if sort == 'tag':
        return JsonTag(name)
    if sort.startswith('?'):
        return Opt(z3.Bool(name + '.null'), value(sort[1:], name))
    if sort == 'time':
        return OffTime(z3.Real(name), name + '.offset')
    return mkval(sort, name)


def same_value(a, b, sort):
    """Equal value, type, and (for times) offset."""
    if a is b:
        return True
    if isinstance(a, Opt) and not isinstance(b, Opt):
        # the code has decided which one it is
        if b is None:
            return a.null
        r = same_value(a.v, b, sort)
        return z3.And(z3.Not(a.null), z3.BoolVal(r) if isinstance(r, bool) else r)
    if sort.endswith('time'):
        if not (isinstance(a, OffTime) and isinstance(b, OffTime) and a.off == b.off):
            return False
        return z3.simplify(a.z == b.z)
    if type(a) is not type(b):
        return False
    return veq(a, b)


def entity(M, name, schema):
    cls = getattr(M, name)
    def body(c):
        with patched((M, 'json', JsonModule)):
            vals = {k: value(s, f't.{k}') for k, s in schema.items()}
            t = cls(**vals)
            try:
                data = t.pack()
                u = cls.unpack(data)
            except (TypeError, ValueError, AttributeError, KeyError) as e:
                c.fail(f'{name}: every record can be encoded and decoded', repr(e))
                return
            c.cover(f'{name} round trip')
            c.prove(f'{name}: decoding yields a record of the same kind', type(u) is cls)
            for k, s in schema.items():
                c.prove(f'{name}: field {k} survives the wire unchanged', same_value(vals[k], getattr(u, k), s))
            for k in schema:
                c.prove(f'{name}: encoding does not modify the record ({k})', getattr(t, k) is vals[k])
            c.prove(f'{name}: no further fields', set(cls.columns) == set(schema))
    return body


def scalar(M):
    """to_json_type / from_json_type on every kind of scalar."""
    def body(c):
        kind = ['str', 'int', 'real', 'bool', 'time', 'none'][c.choose([(k, None) for k in ('str', 'int', 'real', 'bool', 'time', 'none')], 'value')]
        v = None if kind == 'none' else value(kind, 'v')
        out = M.to_json_type(v)
        if kind == 'time':
            c.prove('to_json_type: a time becomes text that denotes it', isinstance(out, SymStr) and same_value(v, M.from_json_type(out), 'time') is not False)
        else:
            c.prove('to_json_type: every other value is kept', out is v)
    return body


def run(rep):
    M = mod('data.model')
    rep.run('Task.unpack(Task.pack())', entity(M, 'Task', TASK), covers=['Task round trip'])
    rep.run('Client.unpack(Client.pack())', entity(M, 'Client', CLIENT), covers=['Client round trip'])
    rep.run('to_json_type/from_json_type', scalar(M))
