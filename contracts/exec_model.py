"""Environment of a TaskExecutor: local queues, template, environment builder, files, processes, signals."""
import subprocess
from pyvc.models import *
from pyvc.core import z3

VARS = ['id', 'task', 'process', 'template', 'redirect_output', 'redirect_errors', 'capture', 'elapsed', 'timeout', 'signalwait',
        'stop_requested', 'attempted_sigint', 'attempted_sigterm', 'attempted_sigkill', 'inbound', 'outbound']


class Expansion:
    """Template.expand: a text determined by the arguments, or an error (value: C16)."""
    def __init__(self, template='{}'):
        self.template = template
    def expand(self, args):
        c = ctx()
        if c.choose([('ok', None), ('error', None)], 'expand') == 1:
            c.env['expand_failed'] = True
            raise env_failure(RuntimeError('expand'))
        return SymStr(uf('expand', z3.StringSort(), z3.StringSort())(zstr(args)))


class Process:
    """subprocess.Popen object: wait() times out or returns the exit status; signals are recorded."""
    pid = 4711
    def __init__(self, w):
        self.w = w
        self.status = mkval('int', 'process_status')
    def wait(self, timeout=None):
        c = ctx()
        self.w.events.append('wait')
        if self.w.ended:
            return self.status
        if timeout is None or c.choose([('ended', None), ('timeout', None)], 'process.wait') == 0:
            self.w.ended = True
            self.w.end_time = clock_read()
            return self.status
        self.w.timeouts.append(clock_read())
        raise subprocess.TimeoutExpired('cmd', timeout)
    def poll(self):
        c = ctx()
        if self.w.ended or c.choose([('ended', None), ('running', None)], 'process.poll') == 0:
            if not self.w.ended:
                self.w.ended = True
                self.w.end_time = clock_read()
            return self.status
        return None
    @property
    def returncode(self):
        return self.status if self.w.ended else None
    def _sig(self, s):
        self.w.events.append(('signal', s))
        self.w.signals.append((s, clock_read()))
    def send_signal(self, s):
        self._sig({2: 'INT', 15: 'TERM', 9: 'KILL'}.get(int(s), f'signal {s}'))
    def terminate(self):
        self._sig('TERM')
    def kill(self):
        self._sig('KILL')


class World:
    def __init__(self, c, capture=False, sig_start=None):
        self.C = C = mod('client')
        self.events, self.signals, self.timeouts, self.opened = [], [], [], []
        self.ended = False
        self.launches = []
        self.envs = []
        self.put_records = []
        self.received = []
        self.sig = Signals(sig_start)
        def on_get(t):
            self.events.append('get')
            self.received.append(t)
            self.get_time = c.now_last
        self.inbound = Source('inbound', lambda n: TaskRec(n), on_get=on_get)
        self.outbound = Sink('outbound', snap=self._put)
        def popen(*a, **k):
            t = clock_read()
            if c.choose([('ok', None), ('error', None)], 'Popen') == 1:
                c.env['popen_failed'] = True
                raise env_failure(OSError('cannot start'))
            self.events.append('launch')
            p = Process(self)
            self.launches.append((a, k, p, t))
            return p
        def env(task):
            if c.choose([('ok', None), ('error', None)], 'task_env') == 1:
                c.env['popen_failed'] = True
                raise env_failure(ValueError('environment'))
            e = {'TASK_OUTPATH': SymStr(uf('outpath', z3.StringSort(), z3.StringSort())(task.id.z)),
                 'TASK_ERRPATH': SymStr(uf('errpath', z3.StringSort(), z3.StringSort())(task.id.z))}
            self.envs.append((task, e))
            return e
        def fopen(p, *a, **k):
            if c.choose([('ok', None), ('error', None)], 'open') == 1:
                c.env['popen_failed'] = True
                raise env_failure(OSError('open'))
            f = Recorder('file', [])
            self.opened.append((p, f))
            return f
        c.env['open'] = fopen
        patch(C, Popen=popen, task_env=env, check_signal=self.sig, Template=Expansion)
        self.signalwait = mkval('int', 'signalwait')
        c.assume(self.signalwait.z >= 0)
        self.limit = mkval('int', 'walltime') if c.choose([('limit', None), ('no limit', None)], 'walltime') == 0 else None
        self.shared = []          # what is done to the streams all executors of the client write to
        self.out, self.err = Recorder('stdout', self.shared), Recorder('stderr', self.shared)
        self.m = C.TaskExecutor(id=1, inbound=self.inbound, outbound=self.outbound, template='{}', redirect_output=self.out,
                                redirect_errors=self.err, capture=capture, timeout=self.limit, signalwait=self.signalwait)
    def _put(self, t):
        self.events.append('put')
        self.put_records.append((t, t.freeze() if isinstance(t, Record) else t))
        return t
