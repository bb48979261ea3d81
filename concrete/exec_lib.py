"""Fake processes with scripted behaviour under the scripted clock."""
import subprocess
from concrete.lib import CLOCK


class FakeProc:
    """Runs for `life` seconds; the k-th signal kind it reacts to ends it `after` seconds later."""
    pid = 99

    def __init__(self, life, code, react=None, jitter=()):
        self.start = CLOCK.t
        self.end = self.start + life
        self.code = code
        self.react = react or {}
        self.jitter = list(jitter)
        self.signals = []
        self.polls = []
        self.ended_at = None
        self.returncode = None

    def wait(self, timeout=None):
        if self.end <= CLOCK.t + (timeout if timeout is not None else 1e18):
            CLOCK.t = max(CLOCK.t, self.end)
            self.ended_at = self.end
            self.returncode = self.code
            return self.code
        CLOCK.advance(timeout + (self.jitter.pop(0) if self.jitter else 0))
        if CLOCK.t >= self.end:
            pass
        self.polls.append(CLOCK.t)
        raise subprocess.TimeoutExpired('cmd', timeout)

    def poll(self):
        return self.code if self.end <= CLOCK.t else None

    def _sig(self, name):
        self.signals.append((name, CLOCK.t, self.end <= CLOCK.t))
        if name in self.react:
            self.end = min(self.end, CLOCK.t + self.react[name])
            self.code = {'INT': -2, 'TERM': -15, 'KILL': -9}[name]

    def send_signal(self, s):
        self._sig({2: 'INT', 15: 'TERM', 9: 'KILL'}.get(int(s), f'{s}'))

    def terminate(self):
        self._sig('TERM')

    def kill(self):
        self._sig('KILL')
