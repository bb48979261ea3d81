"""Executable side of the contracts: runs the *unmodified* code of /repo/src on generated inputs,
schedules and clocks, against the same specification.  Used to replay refuted obligations, to
cross-check the verifier on every run, and as the bounded stand-in where the verifier cannot decide.

A property module defines
    cases(rng, tier)  -> iterator of JSON-serialisable cases (deterministic for a seed)
    check(case)       -> None, or a text describing how the property failed on the real code."""
import datetime as _dt
import os
import queue as _queue
import random
import sys
import time as _time
import threading

REPO = os.environ.get('VERIF_REPO', '/repo')
REAL_DATETIME = _dt.datetime
REAL_SLEEP = _time.sleep
TZ = _dt.timezone.utc


class Clock:
    """Scripted clock."""
    def __init__(self):
        self.t = 1_700_000_000.0
        self.sleeps = []
        self.on_sleep = None
        self.steps = None           # optional list of increments applied at successive reads
    def read(self):
        if self.steps:
            self.t += self.steps.pop(0)
        return self.t
    def advance(self, dt):
        self.t += dt
    def sleep(self, n):
        self.sleeps.append(n)
        if self.on_sleep:
            self.on_sleep(n)
        self.t += max(n, 0)


CLOCK = Clock()


class _Meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, REAL_DATETIME)


class FakeDatetime(REAL_DATETIME, metaclass=_Meta):
    @classmethod
    def now(cls, tz=None):
        d = cls.fromtimestamp(CLOCK.read(), TZ)
        return d if tz is not None else d.replace(tzinfo=None)
    @classmethod
    def utcnow(cls):
        return cls.now()
    @classmethod
    def today(cls):
        return cls.now()
    def astimezone(self, tz=None):
        if self.tzinfo is None:
            return self.replace(tzinfo=TZ)
        return super().astimezone(tz) if tz else self


def scratch():
    return os.environ['VERIF_SCRATCH']


def setup(fake_clock=True, dbfile=None):
    """Prepare the environment and import hypershell (before: third-party modules)."""
    site = os.path.join(scratch(), 'site')
    os.makedirs(site, exist_ok=True)
    os.environ['HYPERSHELL_SITE'] = site
    os.environ.setdefault('TZ', 'UTC')
    _time.tzset()
    for k in list(os.environ):
        if k.startswith('HYPERSHELL_') and k not in ('HYPERSHELL_SITE',):
            del os.environ[k]
    os.environ['HYPERSHELL_LOGGING_LEVEL'] = 'critical'
    if dbfile:
        os.environ['HYPERSHELL_DATABASE_FILE'] = dbfile
        os.environ['HYPERSHELL_DATABASE_PROVIDER'] = 'sqlite'
    os.chdir(scratch())
    src = os.path.join(REPO, 'src')
    if src not in sys.path:
        sys.path.insert(0, src)
    sys.dont_write_bytecode = True
    import sqlalchemy, sqlalchemy.orm, sqlalchemy.dialects.sqlite, sqlalchemy.dialects.postgresql, cmdkit, cmdkit.config, tomlkit, paramiko, rich, json  # noqa
    import logging.handlers, multiprocessing.managers, concurrent.futures  # noqa
    if fake_clock:
        _dt.datetime = FakeDatetime
        _time.sleep = CLOCK.sleep
    try:
        import hypershell  # noqa
        import hypershell.submit, hypershell.server, hypershell.client, hypershell.task, hypershell.config, hypershell.cluster  # noqa
    finally:
        _dt.datetime = REAL_DATETIME
    assert os.path.realpath(hypershell.__file__).startswith(os.path.realpath(src)), hypershell.__file__
    return hypershell


class Stop(BaseException):
    """Ends a run of a machine that would go on for ever (script exhausted)."""


class InQ:
    """Scripted consumer side.  script: list of ('item', x) | ('empty',) | ('end',), each with the
    time that passes before the call returns as last entry."""
    def __init__(self, script, after=None, log=None, name='in'):
        self.script = list(script)
        self.i = 0
        self.log = log if log is not None else []
        self.name = name
        self.after = after
        self.dones = 0
    def get(self, block=True, timeout=None):
        if self.i >= len(self.script):
            if self.after is not None:
                return self.after()
            raise Stop(f'{self.name}: script exhausted')
        ev = self.script[self.i]
        self.i += 1
        CLOCK.advance(ev[-1] if isinstance(ev[-1], (int, float)) and len(ev) > 1 else 0)
        if ev[0] == 'empty':
            raise _queue.Empty()
        if ev[0] == 'end':
            self.log.append((self.name, None))
            return None
        self.log.append((self.name, ev[1]))
        return ev[1]
    def get_nowait(self):
        return self.get(False)
    def task_done(self):
        self.dones += 1
    def empty(self):
        return self.i >= len(self.script) or self.script[self.i][0] == 'empty'
    def qsize(self):
        return 0 if self.empty() else 1


class OutQ:
    """Scripted producer side: fulls = list of numbers of consecutive Full outcomes per item."""
    def __init__(self, fulls=(), log=None, name='out', snap=lambda x: x, dt=0):
        self.fulls = list(fulls)
        self.k = 0
        self.left = self.fulls[0] if self.fulls else 0
        self.items = []
        self.log = log if log is not None else []
        self.name, self.snap, self.dt = name, snap, dt
        self.attempts = 0
    def put(self, item, block=True, timeout=None):
        self.attempts += 1
        if self.attempts > 100000:
            raise Stop(f'{self.name}: too many puts')
        if self.left > 0 and not (block and timeout is None):
            self.left -= 1
            CLOCK.advance(timeout or 0)
            raise _queue.Full()
        self.k += 1
        self.left = self.fulls[self.k] if self.k < len(self.fulls) else 0
        CLOCK.advance(self.dt)
        v = self.snap(item)
        self.items.append(v)
        self.log.append((self.name, v))
    def put_nowait(self, item):
        self.put(item, False)
    def full(self):
        return self.left > 0
    def qsize(self):
        return len(self.items)


def run_machine(m, steps=20000):
    """StateMachine.run with a bound on the number of steps."""
    n = 0
    real = m.next
    def counted():
        nonlocal n
        n += 1
        if n > steps:
            raise Stop('machine does not halt')
        return real()
    m.next = counted
    m.run()
    return n


class Obj:
    def __init__(self, **k):
        self.__dict__.update(k)


def rand_text(rng, kinds=None):
    pool = ['echo 1', 'a', '', '   ', 'true', 'null', '1', '1.5', '-0', '2024-01-01', '20240101', '2024-01-01 10:00:00',
            '2024-01-01T10:00:00+02:00', '2024-W01-1', '12:30:00', 'x' * 200, 'caf\u00e9 \u4e2d', '"q"', "it's", '{}', '{"a": 1}', '[1]', '\\n', 'a\tb',
            '$HOME `x` $(y)', '%s %d {0}', '\u202e\U0001f600', '#c', 'a#b', 'a\u2028b', 'x\x00y']
    r = rng.random()
    if r < 0.6:
        return rng.choice(pool)
    n = rng.randint(0, 12)
    return ''.join(rng.choice('ab 01-:T.{}%/\\"\'\u00e9\n\t+') for _ in range(n))


class Slow:
    """A component that takes a given time; awaiting it advances the clock."""
    def __init__(self, needs):
        self.needs, self.started = needs, False
    def start(self):
        self.started = True
    def is_alive(self):
        return self.started and self.needs > 0
    def join(self, timeout=None):
        d = self.needs if timeout is None else min(timeout, self.needs)
        CLOCK.t += d
        self.needs -= d
