"""C07: TaskExecutor runs each task at most once and reports its true outcome."""
from pyvc.models import *
from pyvc.core import z3
from contracts.exec_model import World, VARS, Process


def tint(z):
    return z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z))


def handed_back(c, w, t):
    c.prove('executor: the task is handed back exactly once, as itself', len(w.put_records) == 1 and w.put_records[0][0] is t)
    c.prove('executor: a handed-back task is not modified any more', veq(t.freeze(), w.put_records[0][1]))
    return w.put_records[0][1]


def get_step(c):
    """From GET_LOCAL to the running process (WAIT_TASK), to the next GET_LOCAL or to the end."""
    capture = c.choose([('capture', None), ('redirect', None)], 'output') == 0
    w = World(c, capture)
    m = w.m
    step_until(m, ['GET_LOCAL'])
    c.prove('executor: nothing happens before the first task', not w.events)
    stale = TaskRec('stale')
    if c.choose([('first', None), ('later', None)], 'iteration') == 1:
        w0 = Process(w)
        havoc(m, task=stale, process=w0, stop_requested=SymTime(clock_read(), False) if c.choose([('stopped', None), ('not stopped', None)], 'before') == 0 else None,
              attempted_sigint=mkval('bool', 'i0'), attempted_sigterm=mkval('bool', 't0'), attempted_sigkill=mkval('bool', 'k0'))
    else:
        w0 = None
    r = step_until(m, ['GET_LOCAL', 'WAIT_TASK'], ghost=lambda: {'n': len(w.events)})
    declare(m, VARS)
    kind = c.env.get('last_inbound')
    c.cover(f'executor {kind} -> {r}')
    c.prove('executor: an earlier task is not touched again', not stale.written() and not w.signals)
    c.prove('executor: at most one task is taken and at most one process is started for it', len(w.received) <= 1 and len(w.launches) <= len(w.received))
    if not capture:
        c.prove('executor: the streams shared with the other executors stay open', not where(w.shared, 'stdout.close') and not where(w.shared, 'stderr.close'))
    if kind != 'item':
        c.prove('executor: nothing is started or handed back without a task', not w.put_records and not w.launches)
        c.prove('executor: the end marker ends the executor', (r == 'HALT') == (kind == 'end'))
        return
    t = w.received[0]
    submit = t.rec.submit_time if isinstance(t, Frozen) else t.submit_time
    got = t.written()
    c.prove('executor: the task carries the id and host of this client', got.get('client_id') == w.C.INSTANCE and got.get('client_host') == w.C.HOSTNAME)
    allowed = {'client_id', 'client_host', 'command', 'start_time', 'waited', 'outpath', 'errpath', 'completion_time', 'exit_status', 'duration'}
    c.prove('executor: only result fields of the task are written', set(got) <= allowed)
    c.prove('executor: does not stop on a task', r != 'HALT')
    failed = c.env.get('expand_failed') or c.env.get('popen_failed')
    if failed:
        c.cover('executor failed start')
        c.prove('executor: a task that cannot be started goes back at once', r == 'GET_LOCAL')
        out = handed_back(c, w, t)
        c.prove('executor: no process is started for it', not w.launches)
        st = got.get('exit_status')
        c.prove('executor: it is reported with a non-zero status', st is not None and znum(st) is not None and znum(st) != 0)
        ct = got.get('completion_time')
        c.prove('executor: it is reported as completed, not before it was taken', isinstance(ct, SymTime) and ct.aware and ct.z >= w.get_time)
        return
    c.prove('executor: the process runs before the task is handed back', r == 'WAIT_TASK' and not w.put_records)
    c.prove('executor: exactly one process is started', len(w.launches) == 1 and m.process is w.launches[0][2] and m.task is t)
    a, k, p, when = w.launches[0]
    cmd = SymStr(uf('expand', z3.StringSort(), z3.StringSort())(t.args.z))
    ran = a[0] if a else k.get('args')
    c.prove('executor: the process runs the expanded command line in a shell', veq(ran, cmd) if isinstance(ran, SymStr) and k.get('shell') is True else False)
    c.prove('executor: the command that is run is recorded', veq(got.get('command'), cmd))
    st = got.get('start_time')
    c.prove('executor: start time lies between taking the task and the launch', z3.And(st.z >= w.get_time, st.z <= when) if isinstance(st, SymTime) and st.aware else False)
    c.prove('executor: waiting time is measured from submission in whole seconds', znum(got.get('waited')) == tint(st.z - submit.z))
    c.prove('executor: the process gets the environment of this task', len(w.envs) == 1 and w.envs[0][0] is t and k.get('env') is w.envs[0][1])
    if capture:
        e = w.envs[0][1]
        c.prove('executor: captured output goes to the files of this task',
                len(w.opened) == 2 and veq(got.get('outpath'), e['TASK_OUTPATH']) is not False and veq(got.get('errpath'), e['TASK_ERRPATH']) is not False
                and conj([veq(got.get('outpath'), e['TASK_OUTPATH']), veq(got.get('errpath'), e['TASK_ERRPATH']),
                          conj([veq(next((p_ for p_, f in w.opened if f is k.get('stdout')), None), e['TASK_OUTPATH']),
                                veq(next((p_ for p_, f in w.opened if f is k.get('stderr')), None), e['TASK_ERRPATH'])])]))
    else:
        c.prove('executor: output goes to the client\'s own streams', k.get('stdout') is w.out and k.get('stderr') is w.err)
    c.prove('executor: result is not reported before the process ends', 'exit_status' not in got and 'completion_time' not in got)
    c.aux('executor: escalation state is reset for the new task',
          m.stop_requested is None and m.attempted_sigint is False and m.attempted_sigterm is False and m.attempted_sigkill is False)


def wait_step(c):
    """WAIT_TASK: the process of m.task runs; until it ends nothing is handed back or taken."""
    w = World(c, c.choose([('capture', None), ('redirect', None)], 'output') == 0)
    m = w.m
    step_until(m, ['GET_LOCAL'])
    t = TaskRec('running')
    start = SymTime(z3.Real('start_time'), True)
    t.__dict__['_vals'].update(start_time=start)
    before = dict(t.written())
    c.assume(start.z <= clock_read())
    esc = c.choose([('none', None), ('requested', None)], 'escalation')
    flags = {'attempted_sigint': False, 'attempted_sigterm': False, 'attempted_sigkill': False}
    if esc:
        for f in flags:
            if c.choose([('yes', None), ('no', None)], f) == 0:
                flags[f] = True
            else:
                break
    havoc(m, task=t, process=Process(w), stop_requested=SymTime(clock_read(), False) if esc else None, **flags)
    if w.m.capture:
        m.redirect_output, m.redirect_errors = Recorder('out', []), Recorder('err', [])
    at_state(m, 'WAIT_TASK')
    r = step_until(m, ['GET_LOCAL', 'WAIT_TASK'], ghost=lambda: {'n': len(w.events)})
    declare(m, VARS)
    c.cover(f'executor running -> {r}')
    c.prove('executor: no task is taken and no process is started while one is running', not w.received and not w.launches)
    if not m.capture:
        c.prove('executor: the streams shared with the other executors stay open', not where(w.shared, 'stdout.close') and not where(w.shared, 'stderr.close'))
    got = t.written()
    if r == 'GET_LOCAL':
        c.prove('executor: hands a task back only when its process ended', w.ended)
        out = handed_back(c, w, t)
        c.prove('executor: only the outcome is added', set(got) - set(before) <= {'exit_status', 'completion_time', 'duration'} and 'start_time' not in t._writes)
        c.prove('executor: exit status is the process\'s own', veq(got.get('exit_status'), m.process.status) if got.get('exit_status') is not None else False)
        ct = got.get('completion_time')
        c.prove('executor: completion is not before the end of the process', z3.And(ct.z >= w.end_time, ct.z >= start.z) if isinstance(ct, SymTime) and ct.aware else False)
        c.prove('executor: duration is the whole number of seconds between start and completion', veq(znum(got.get('duration')), 0) if False else znum(got.get('duration')) == tint(ct.z - start.z))
    else:
        c.prove('executor: nothing is handed back while the process runs', not w.put_records)
        c.prove('executor: a finished task is handed back', not w.ended)
        c.prove('executor: the outcome is not recorded while the process runs', set(got) == set(before))
        c.prove('executor: stays with its process', m.task is t)
        if r == 'HALT':
            c.cover('executor gives up')
            c.prove('executor: gives up only after a kill was attempted', flags['attempted_sigkill'] is True)


def run(rep):
    rep.run('TaskExecutor.GET_LOCAL', get_step,
            covers=['executor item -> WAIT_TASK', 'executor item -> GET_LOCAL', 'executor empty -> GET_LOCAL', 'executor end -> HALT', 'executor failed start'])
    rep.run('TaskExecutor.WAIT_TASK', wait_step, covers=['executor running -> GET_LOCAL', 'executor running -> WAIT_TASK', 'executor gives up'])
