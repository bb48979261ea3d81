"""C20 on the real code: host specifications are generated from their meaning (a list of entries), written as
text and expanded by the real code; configured lists and groups through the real configuration objects and the
real `hs cluster` command."""
import contextlib
import io
from unittest import mock
from concrete import lib
lib.setup(fake_clock=False)
from cmdkit.config import Configuration, Namespace
from hypershell import cluster as X
from hypershell.cluster import ssh as H
from hypershell.core.exceptions import *
from cmdkit.config import ConfigurationError

CH = 'abz019-_. @:/*é{}()~'


def entry_text(e):
    """e: a name, or [prefix, [item...], suffix] with item: text | [first, last]"""
    if isinstance(e, str):
        return e
    return e[0] + '[' + ','.join(i if isinstance(i, str) else f'{i[0]}-{i[1]}' for i in e[1]) + ']' + e[2]


def entry_hosts(e):
    if isinstance(e, str):
        return [e]
    out = []
    for i in e[1]:
        if isinstance(i, str):
            out.append(i)
        else:
            w = len(i[0]) if i[0].startswith('0') else 0
            out += [str(n).rjust(w, '0') for n in range(int(i[0]), int(i[1]) + 1)]
    return [e[0] + s + e[2] for s in out]


def cases(rng, tier):
    one = [['n', ['1'], ''], ['n', [['1', '3']], ''], ['n-', [['00', '04'], '08'], '.local'], ['', [['1', '2']], ''], ['a', ['1', '2'], 'b'], ['', ['07'], 'x'], ['n', [['8', '11']], ''], ['n', [['08', '11']], ''],
           ['n', [['0', '3']], ''], ['n', [['098', '102']], '.x'], ['n', [['5', '5']], ''], ['n', ['1', '1'], ''], ['n', ['3', '1'], ''], ['n', ['1', ['3', '5'], '9', ['11', '12']], ''], ['a1-2', [['1', '2']], '-3'],
           ['n', [['001', '1']], ''], ['n', [['99', '101']], ''], ['n', ['000'], ''], ['1', ['1'], '1'], ['n', [['9', '10'], ['09', '10']], 's'], ['x', [['0', '0']], '']]
    names = ['host', 'a', 'host-1', '10.0.0.1', 'user@host', 'h1-3', ' ']
    for e in one + names:
        yield {'kind': 'spec', 'entries': [e]}
        for f in ('host', ['m', [['1', '2'], '4'], ''], ['n', [['00', '01']], '.z']):
            yield {'kind': 'spec', 'entries': [e, f]}
            yield {'kind': 'spec', 'entries': [f, e]}
            yield {'kind': 'spec', 'entries': [f, e, 'last', e]}
    for form in ('text', 'list', 'groups', 'none', 'nosection', 'number'):
        for group in (None, 'g', 'h', 'absent'):
            yield {'kind': 'config', 'form': form, 'group': group, 'entries': [one[2], 'x', one[1]]}
    for how in ('--ssh', '--ssh-default', '--ssh-group', '--both'):
        for e in ([one[2]], ['x'], ['x', one[1], 'y']):
            yield {'kind': 'command', 'how': how, 'entries': e}
    def word(lo):
        return ''.join(rng.choice(CH) for _ in range(rng.randint(lo, 6)))
    def num():
        return str(rng.choice([rng.randint(0, 12), rng.randint(0, 1200)])).rjust(rng.choice([0, 0, 1, 2, 3, 4]), '0')
    def item():
        if rng.random() < .4:
            return num()
        a = num()
        n = int(a) + rng.choice([0, 1, 2, 9, 30])
        b = str(n)
        if a.startswith('0') and rng.random() < .8:
            b = b.rjust(len(a), '0')
        return [a, b]
    def entry():
        return word(1) if rng.random() < .35 else [word(0), [item() for _ in range(rng.randint(1, 5))], word(0)]
    while True:
        n = rng.random()
        es = [entry() for _ in range(rng.randint(1, 5))]
        if n < .85:
            yield {'kind': 'spec', 'entries': es}
        elif n < .95:
            yield {'kind': 'config', 'form': rng.choice(['text', 'list', 'groups']), 'group': rng.choice([None, 'g', 'h', 'absent']), 'entries': es}
        else:
            yield {'kind': 'command', 'how': rng.choice(['--ssh', '--ssh-default', '--ssh-group', '--both']), 'entries': es}


def clear(entries):
    """The text says what the entries mean: a range whose last number alone is padded is not asked for."""
    for e in entries:
        if not isinstance(e, str):
            for i in e[1]:
                if not isinstance(i, str) and i[1].startswith('0') and not (i[0].startswith('0') and len(i[0]) == len(i[1])):
                    return False
    return True


def conf(form, entries):
    spec = ','.join(entry_text(e) for e in entries)
    node = {'text': lambda: spec, 'list': lambda: [entry_text(e) for e in entries if isinstance(e, str)] + ['p', 'q'], 'number': lambda: 3,
            'groups': lambda: {'g': spec, 'h': [e for e in entries if isinstance(e, str)] + ['p', 'q'], 'other': ['no']}}.get(form)
    d = {} if form == 'nosection' else {'ssh': {'args': 'x', **({'nodelist': node()} if node else {})}}
    return Configuration(system=Namespace({'ssh': {'args': 'y'}} if d else {}), user=Namespace(d))


def run(f):
    try:
        return 'ok', f()
    except Exception as e:
        return 'error', e


def check(case):
    es = case['entries']
    if not clear(es):
        return
    spec = ','.join(entry_text(e) for e in es)
    want = [h for e in es for h in entry_hosts(e)]
    if case['kind'] == 'spec':
        for name, f in (('from_pattern', H.NodeList.from_pattern), ('from_cmdline', H.NodeList.from_cmdline)):
            r, v = run(lambda: f(spec))
            if r == 'error':
                return f'{name}: {spec!r}: {v!r}'
            if list(v) != want:
                return f'{name}: {spec!r} expanded to {list(v)!r} instead of {want!r}'
        return
    plain = [e for e in es if isinstance(e, str)] + ['p', 'q']
    if case['kind'] == 'config':
        form, g = case['form'], case['group']
        expected = None
        if form == 'text' and g is None:
            expected = want
        elif form == 'list' and g is None:
            expected = plain
        elif form == 'groups' and g in ('g', 'h'):
            expected = want if g == 'g' else plain
        with mock.patch.object(H, 'config', conf(form, es)):
            r, v = run(lambda: H.NodeList.from_config(g) if g is not None else H.NodeList.from_cmdline(None))
        if expected is None:
            if r != 'error' or not isinstance(v, ConfigurationError):
                return f'config: {form} with group {g!r} gives {v!r}'
        elif r == 'error' or list(v) != expected:
            return f'config: {form} with group {g!r} gives {v!r} instead of {expected!r}'
        return
    how, made = case['how'], []
    argv = {'--ssh': ['--ssh', spec], '--ssh-default': ['--ssh'], '--ssh-group': ['--ssh', '--ssh-group', 'g'], '--both': ['--ssh', 'ignored', '--ssh-group', 'g']}[how]
    if how == '--ssh' and (spec.startswith('-') or not spec):
        return
    c = conf('groups' if 'default' not in how else 'text', es)
    err = io.StringIO()
    with mock.patch.object(H, 'config', c), mock.patch.object(X, 'run_ssh', lambda **k: made.append(k)), contextlib.redirect_stderr(err):
        try:
            X.ClusterApp.main(['-', *argv])
        except SystemExit:
            pass
    if how == '--both':
        return
    if len(made) != 1:
        return f'command: hs cluster {argv} started no cluster: {err.getvalue()[-300:]}'
    if list(made[0]['nodelist']) != want:
        return f'command: hs cluster {argv} uses {list(made[0]["nodelist"])!r} instead of {want!r}'
