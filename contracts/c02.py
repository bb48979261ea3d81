"""C02: heartbeats and bundle confirmations survive the wire; a confirmation names exactly the bundle's tasks."""
from pyvc.models import *
from pyvc.core import z3
from pyvc.values import OffTime
from pyvc.jsonmodel import JsonModule
from contracts.c01 import same_value, value


def beat(c):
    H = mod('core.heartbeat')
    with patched((H, 'json', JsonModule)):
        states = list(H.ClientState)
        c.prove('ClientState: running and finished are distinct states', len(states) == 2 and {s.name for s in states} == {'RUNNING', 'FINISHED'} and len({s.value for s in states}) == 2)
        st = states[c.choose([(s.name, None) for s in states], 'state')]
        vals = {'uuid': value('str', 'uuid'), 'host': value('str', 'host'), 'time': value('time', 'time')}
        hb = H.Heartbeat(**vals, state=st)
        try:
            u = H.Heartbeat.unpack(hb.pack())
        except (TypeError, ValueError, KeyError, AttributeError) as e:
            c.fail('Heartbeat: every heartbeat can be encoded and decoded', repr(e))
            return
        c.cover(f'heartbeat {st.name}')
        c.prove('Heartbeat: decoding yields a heartbeat', type(u) is H.Heartbeat)
        for k in vals:
            c.prove(f'Heartbeat: {k} survives the wire unchanged', same_value(vals[k], getattr(u, k), 'time' if k == 'time' else 'str'))
        c.prove('Heartbeat: the state survives the wire unchanged', u.state is st)
        c.prove('Heartbeat: nothing else is added', set(vars(u)) == {'uuid', 'host', 'time', 'state'})
        for k in vals:
            c.prove(f'Heartbeat: encoding does not modify the heartbeat ({k})', getattr(hb, k) is vals[k])


def new(c):
    H = mod('core.heartbeat')
    st = [None] + list(H.ClientState)
    s = st[c.choose([(str(x), None) for x in st], 'state')]
    iid, host = value('str', 'instance'), value('str', 'hostname')
    with patched((H, 'INSTANCE', iid), (H, 'HOSTNAME', host)):
        hb = H.Heartbeat.new(**({'state': s} if s is not None else {}))
        c.prove("Heartbeat.new: carries this process' id and host", conj([veq(hb.uuid, iid), veq(hb.host, host)]))
        c.prove('Heartbeat.new: carries the requested state, running by default', hb.state is (s or H.ClientState.RUNNING))
        c.prove('Heartbeat.new: carries the current time with its offset', isinstance(hb.time, SymTime) and hb.time.aware)
        if isinstance(hb.time, SymTime):
            c.prove('Heartbeat.new: the time is read from the clock', hb.time.z == c.env['clock_reads'][-1])


def info(c):
    C = mod('client')
    with patched((C, 'json', JsonModule)):
        vals = {'client_id': value('str', 'cid'), 'client_host': value('str', 'chost')}
        ids = SymSeq([Var('ids', lambda k: mkval('str', k))])
        want = SymSeq(list(ids.segs))
        ci = C.ClientInfo(**vals, task_ids=ids)
        try:
            u = C.ClientInfo.unpack(ci.pack())
        except (TypeError, ValueError, KeyError, AttributeError) as e:
            c.fail('ClientInfo: every confirmation can be encoded and decoded', repr(e))
            return
        c.cover('confirmation round trip')
        c.prove('ClientInfo: decoding yields a confirmation', type(u) is C.ClientInfo)
        for k in vals:
            c.prove(f'ClientInfo: {k} survives the wire unchanged', same_value(vals[k], getattr(u, k), 'str'))
        c.prove('ClientInfo: the task ids survive the wire unchanged, in order', seq_eq(as_seq(u.task_ids), want))
        c.prove('ClientInfo: encoding does not modify the confirmation', conj([seq_eq(ci.task_ids, want), ci.client_id is vals['client_id'], ci.client_host is vals['client_host']]))


def from_tasks(c):
    C = mod('client')
    iid, host = value('str', 'instance'), value('str', 'hostname')
    with patched((C, 'INSTANCE', iid), (C, 'HOSTNAME', host)):
        v = Var('bundle', lambda k: TaskRec(k))
        ts = SymSeq([v])
        ci = C.ClientInfo.from_tasks(ts)
        c.cover('from_tasks')
        c.prove("ClientInfo.from_tasks: carries the receiving client's own id and host", conj([veq(ci.client_id, iid), veq(ci.client_host, host)]))
        c.prove("ClientInfo.from_tasks: names exactly the ids of the bundle's tasks in order", seq_eq(as_seq(ci.task_ids), SymSeq([Map(v, [(z3.BoolVal(True), [v.gen.id])])])))
        c.prove('ClientInfo.from_tasks: the tasks are not modified', not v.gen.written() and seq_eq(ts, SymSeq([v])))


def transpose(c):
    C = mod('client')
    cid, host = value('str', 'cid'), value('str', 'chost')
    v = Var('ids', lambda k: mkval('str', k))
    ci = C.ClientInfo(client_id=cid, client_host=host, task_ids=SymSeq([v]))
    out = as_seq(ci.transpose())
    c.cover('transpose')
    want = SymSeq([Map(v, [(z3.BoolVal(True), [{'id': v.gen, 'client_id': cid, 'client_host': host}])])])
    c.prove('ClientInfo.transpose: exactly one assignment of the client to each listed task, in order', seq_eq(out, want))


def built(c):
    """The client's scheduler confirms a received bundle with from_tasks of exactly its tasks."""
    from contracts.c05 import World, ConfirmData, unpacked
    w = World(c, True)
    m = w.m
    step_until(m, ['GET_REMOTE'])
    havoc(m, previous_received=SymTime(clock_read(), False), bundle=SymSeq([Var('stale_bundle', lambda k: Opaque(k))]), tasks=SymSeq([]))
    m.task = TaskRec('stale_task')
    step_until(m, ['GET_REMOTE', 'POP_TASK'])
    if c.env.get('last_scheduled') == 'item' and w.confirms.segs:
        c.cover('confirmation built')
        d = w.confirms.segs[0].v
        c.prove('client: the confirmation built for a bundle names exactly the tasks of that bundle', isinstance(d, ConfirmData) and seq_eq(d.value, unpacked(w.bundles[0])))
        c.prove('client: one confirmation per bundle', len(w.confirms.segs) == 1)
    else:
        c.prove('client: no confirmation without a bundle', w.confirms is not None and (w.events == ['bundle'] or not w.confirms.segs))


def assigned(c):
    """The server writes the assignments of a received confirmation exactly once."""
    from contracts.c12 import confirm, Data, Info
    got = []
    m, q, mem, db = confirm(c, got)
    step_until(m, ['UNLOAD'])
    if c.choose([('first', None), ('later', None)], 'state') == 1:
        havoc(m, client_data=Data('stale_data'), client_info=Info(Data('stale_info')))
    step_until(m, ['UNLOAD'])
    if c.env.get('last_confirmed') == 'item' and not c.branch(mem.z, 'in_memory'):
        c.cover('assignment written')
        c.prove('server: a confirmation becomes exactly one assignment of its client to its tasks', seq_eq(db.trace, [Wrapped('assignments', got[0])]))
    else:
        c.prove('server: no assignment without a confirmation or a database', seq_eq(db.trace, []))


def run(rep):
    mod('client')
    rep.run('Heartbeat.unpack(Heartbeat.pack())', beat, covers=['heartbeat RUNNING', 'heartbeat FINISHED'])
    rep.run('Heartbeat.new', new)
    rep.run('ClientInfo.unpack(ClientInfo.pack())', info, covers=['confirmation round trip'])
    rep.run('ClientInfo.from_tasks', from_tasks, covers=['from_tasks'])
    rep.run('ClientInfo.transpose', transpose, covers=['transpose'])
    rep.run('ClientScheduler: confirmation of a bundle', built, covers=['confirmation built'])
    rep.run('Confirm: assignment of a confirmation', assigned, covers=['assignment written'])
