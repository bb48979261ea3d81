"""C08: escalation INT, TERM, KILL of a running task."""
import signal
from pyvc.models import *
from pyvc.core import z3
from contracts.exec_model import World, VARS, Process
from contracts import c07


def start_state(c):
    """A task that has just been started has no stop requested and no signal attempted."""
    w = World(c, False)
    m = w.m
    step_until(m, ['GET_LOCAL'])
    if c.choose([('first', None), ('later', None)], 'iteration') == 1:
        havoc(m, task=TaskRec('stale'), process=Process(w), stop_requested=SymTime(clock_read(), False) if c.choose([('stopped', None), ('not stopped', None)], 'before') == 0 else None,
              attempted_sigint=mkval('bool', 'i0'), attempted_sigterm=mkval('bool', 't0'), attempted_sigkill=mkval('bool', 'k0'))
        m.elapsed = SymDelta(z3.Real('stale_elapsed'))
    r = step_until(m, ['GET_LOCAL', 'WAIT_TASK'], ghost=lambda: {'n': len(w.events)})
    declare(m, VARS)
    c.prove('escalation: starting a task sends no signal', not w.signals)
    if r == 'WAIT_TASK':
        c.cover('escalation start')
        c.aux('escalation: a fresh task has no stop request and no attempted signal',
              m.stop_requested is None and m.attempted_sigint is False and m.attempted_sigterm is False and m.attempted_sigkill is False)


def wait_step(c):
    """One iteration around WAIT_TASK, from every escalation stage.

    Ghost: stop = time of the stop request, sint/sterm/skill = signals sent so far (coupled to the
    attempted flags), `usr2` = a stop-now signal was received before."""
    w = World(c, False)
    m = w.m
    step_until(m, ['GET_LOCAL'])
    t = TaskRec('running')
    start = SymTime(z3.Real('start_time'), True)
    t.__dict__['_vals'].update(start_time=start, exit_status=None, completion_time=None)
    c.assume(start.z <= clock_read())
    stage = c.choose([(n, None) for n in ('undisturbed', 'interrupted', 'terminated', 'killed')], 'stage')
    flags = {'attempted_sigint': stage >= 1, 'attempted_sigterm': stage >= 2, 'attempted_sigkill': stage >= 3}
    stop = SymTime(clock_read(), False) if stage else None
    havoc(m, task=t, process=Process(w), stop_requested=stop, **flags)
    m.elapsed = SymDelta(z3.Real('stale_elapsed'))
    at_state(m, 'WAIT_TASK')
    entry = c.now_last
    r = step_until(m, ['GET_LOCAL', 'WAIT_TASK'], ghost=lambda: {'n': len(w.events), 'sig': len(w.signals)})
    declare(m, VARS)
    names = ['undisturbed', 'interrupted', 'terminated', 'killed']
    kind = [s for s, _ in w.signals]
    c.cover(f'{names[stage]}: {kind} -> {r}')
    c.prove('escalation: at most one signal per look at the process', len(kind) <= 1)
    if w.ended:
        c.prove('escalation: a task that finished by itself is not signalled', not kind)
        c.prove('escalation: a finished task ends the escalation', r == 'GET_LOCAL')
        return
    c.prove('escalation: the process is looked at before anything is done', bool(w.timeouts))
    seen = w.timeouts[0]
    usr2 = any(s == signal.SIGUSR2 for s in w.sig.seen)
    usr2_all = bool(w.sig.seen) and all(s == signal.SIGUSR2 for s in w.sig.seen)
    wait = z3.ToReal(w.signalwait.z)
    def after(n, at):
        return at - stop.z >= n * wait
    for s, at in w.signals:
        c.prove('escalation: signals are INT, TERM, KILL in this order, each at most once', stage < 3 and s == ['INT', 'TERM', 'KILL'][stage])
        if s == 'INT':
            if not usr2:
                c.prove('escalation: a task is interrupted only at its walltime limit or on a stop-now signal',
                        at - start.z >= z3.ToReal(w.limit.z) if w.limit is not None else False)
        elif s == 'TERM':
            c.prove('escalation: TERM only after the signal wait', after(1, at))
        else:
            c.prove('escalation: KILL only after two signal waits', after(2, at))
    if stage == 0:
        if w.limit is not None:
            c.prove('escalation: the walltime limit is enforced', z3.Or(seen - start.z < z3.ToReal(w.limit.z), z3.BoolVal(kind == ['INT'])))
        c.prove('escalation: a stop-now signal is obeyed', not usr2_all or kind == ['INT'])
    elif stage in (1, 2):
        c.prove('escalation: goes on to the next signal after the signal wait', z3.Or(z3.Not(after(stage, seen)), z3.BoolVal(len(kind) == 1)))
    if r == 'HALT':
        c.cover('gives up')
        c.prove('escalation: gives up only when the process survived three signal waits after a kill', after(3, c.now_last) if stage == 3 else False)
    elif stage == 3:
        c.prove('escalation: gives up after three signal waits', z3.Not(after(3, seen)))
    # coupling of the ghost state with the machine
    n = stage + len(kind)
    c.aux('escalation: attempted flags record the signals sent',
          conj([veq(m.attempted_sigint, n >= 1), veq(m.attempted_sigterm, n >= 2), veq(m.attempted_sigkill, n >= 3)]))
    if stage:
        c.aux('escalation: the time of the stop request is kept', veq(m.stop_requested, stop))
    elif kind:
        c.aux('escalation: the stop request is dated now', z3.And(m.stop_requested.z >= seen, m.stop_requested.z <= w.signals[0][1]) if isinstance(m.stop_requested, SymTime) else False)
        c.prove('escalation: an interrupt is dated', isinstance(m.stop_requested, SymTime))
    else:
        c.aux('escalation: no stop request without a signal', m.stop_requested is None)


def run(rep):
    rep.run('TaskExecutor.start', start_state, covers=['escalation start'])
    rep.run('TaskExecutor.escalation', wait_step,
            covers=["undisturbed: [] -> WAIT_TASK", "undisturbed: ['INT'] -> WAIT_TASK", "undisturbed: [] -> GET_LOCAL",
                    "interrupted: [] -> WAIT_TASK", "interrupted: ['TERM'] -> WAIT_TASK", "terminated: ['KILL'] -> WAIT_TASK",
                    "killed: [] -> WAIT_TASK", 'gives up'])
