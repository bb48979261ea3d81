"""C25 on the real code: `hs task wait` on a real database that changes while it waits."""
import contextlib
import io
import random
from concrete import lib, dblib
from concrete.lib import CLOCK, Stop
from concrete.dblib import *
import hypershell
import hypershell.task as T

STATUS = [0, 1, 2, 127, -1, -9, -15, 255]


def cases(rng, tier):
    for mode in ('--return', '--status', None, '-r', '-s', '--info'):
        for st in STATUS:
            for polls, how in ((0, 'hs'), (1, 'task'), (3, 'app')):
                yield {'kind': 'wait', 'mode': mode, 'status': st, 'polls': polls, 'interval': 2, 'how': how, 'noise': 1, 'seed': 1}
    for interval in (0, 1, 59, 60, 61, 90, 300, 3600, 86400):
        yield {'kind': 'wait', 'mode': None, 'status': 0, 'polls': 2, 'interval': interval, 'how': 'task', 'noise': 1, 'seed': 1}
    for mode in ('--return', '--status', None):
        for bad in ('', 'x', 'zzzzzzzz-0000-4000-8000-000000000001', tid(1)[:-1], tid(1) + '0', tid(1).replace('-', ''), tid(777), tid(1) + '\n', '\n' + tid(1)):
            yield {'kind': 'bad', 'mode': mode, 'id': bad}
    while True:
        yield {'kind': 'wait', 'mode': rng.choice(['--return', '--status', None]), 'status': rng.choice(STATUS + [rng.randint(-64, 255)]), 'polls': rng.randint(0, 6), 'interval': rng.choice([0, 1, 5, 60, 90, 7200]),
               'how': rng.choice(['task', 'app', 'hs']), 'noise': rng.randint(0, 3), 'seed': rng.randint(0, 10**6)}


def call(argv, hs=False):
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            r = hypershell.HyperShellApp.main(['task', 'wait'] + argv) if hs else T.TaskWaitApp.main(argv)
        except SystemExit as e:
            r = e.code
    Session.rollback()
    return r, out.getvalue()


def check(case):
    wipe()
    CLOCK.on_sleep = None
    if case['kind'] == 'bad':
        put(states_rows(['ok', 'new'], 3))
        CLOCK.on_sleep = lambda n: (_ for _ in ()).throw(Stop('waits for an unknown task'))
        try:
            r, out = call([case['id']] + ([case['mode']] if case['mode'] else []))
        finally:
            CLOCK.on_sleep = None
        if not isinstance(r, int) or r == 0:
            return f'error: a malformed or unknown id gives exit status {r!r}'
        if out:
            return f'error: output {out!r} for a malformed or unknown id'
        return
    rng = random.Random(case['seed'])
    put(states_rows(['scheduled'] + [rng.choice(STATES) for _ in range(case['noise'])], case['seed']))
    me, others = tid(1), [tid(2 + k) for k in range(case['noise'])]
    pauses = []
    def finish():
        sql('update task set exit_status = ?, completion_time = ? where id = ?', case['status'], ts(500), me)
    def on_sleep(n):
        pauses.append(n)
        if len(pauses) > case['polls'] + 2:
            raise Stop('still waiting')
        for o in others:
            sql('update task set exit_status = ? where id = ?', rng.choice([0, 3]), o)
        if len(pauses) == 1:
            sql('update task set client_id = ?, start_time = ? where id = ?', CLIENTS[0], ts(400), me)
        if len(pauses) == case['polls']:
            finish()
    if case['polls'] == 0:
        finish()
    if case['how'] == 'app':
        Task.from_id(me)                       # something is cached already
    CLOCK.on_sleep = on_sleep
    try:
        r, out = call([me, '-n', str(case['interval'])] + ([case['mode']] if case['mode'] else []), case['how'] == 'hs')
    except Stop:
        return 'end: waits although the task has finished'
    finally:
        CLOCK.on_sleep = None
    if len(pauses) != case['polls']:
        return f'end: returned after {len(pauses)} pauses, the task finished after {case["polls"]}'
    if any(p != case['interval'] for p in pauses):
        return f'pause: {pauses} instead of {case["interval"]}'
    if case['mode'] in ('--return', '-r'):
        if r != case['status']:
            return f'return: exit status {r!r} instead of {case["status"]}'
    elif r != 0:
        return f'exit: {r!r}'
    if case['mode'] in ('--status', '-s') and out != f'{case["status"]}\n':
        return f'status: printed {out!r} instead of {case["status"]}'
    if case['mode'] in (None, '--return', '-r') and out:
        return f'output: {out!r}'
    if case['mode'] == '--info' and (me not in out or str(case['status']) not in out):
        return f'info: {out!r}'
