"""C26 on the real code: tag dictionaries and tag texts against an independent statement of what is valid."""
import re
from concrete import lib
lib.setup(fake_clock=False)
from hypershell.data.model import Task
from hypershell.task import Tag

OK = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._+-')
VALUES = [None, True, False, 0, 1, -7, 2.5, float('nan'), '', ' ', '\t\n ', 'a', 'a' * 120, 'a' * 121, '1', 'x.y_z+w-v', 'a b', 'a\n', '\na', 'é', 'a:b', 'a,b', '²', '１', 'a\x00',
          ' a', 'a ', {'py': 'list'}, {'py': 'dict'}, {'py': 'bytes'}, {'py': 'object'}, {'py': 'tuple'}, ' ' * 130, 'A' * 119 + '!', '+', '-', '.', '_', '/', '@', '=', '\x85', '\u2003', 'ſ', 'K']
KEYS = ['a', 'b', 'site', '', 'with space', 'é', {'py': 1}, {'py': None}, {'py': True}, {'py': 2.5}, {'py': 'bytes'}]
DICTS = [None, {'py': 'list'}, {'py': 'text'}, {'py': 0}, {'py': False}, {'py': ''}, {'py': 'tuple'}, {'py': 'set'}]
TEXTS = ['a', 'a:', 'a:b', 'a:b:c', ':b', ':', '', ' ', ' a : b ', 'a: 12 ', 'a:1.5', 'a:true', 'a:NONE', 'a:null', 'a:False', 'a:x y', 'a:x,y', 'a:é', 'a:' + 'x' * 120, 'a:' + 'x' * 121,
         'a: :b', 'a:1e5', 'a:nan', 'a:0x10', 'a:-3', 'a:+3', 'a:1_000', 'a::', 'a\n:b\n', 'a b:c', 'a,b:c', 'x y', 'a=b', 'a=b:c', 'a:b=c', 'a b', 'é', 'a:  ', 'a:' + '9' * 130]


def build(x, key=False):
    if isinstance(x, dict) and 'py' in x:
        p = x['py']
        return {'list': ['a'], 'dict': {'a': 1}, 'bytes': b'a', 'object': object(), 'tuple': ('a', 'b'), 'text': 'a:b', 'set': {'a'}}.get(p, p) if isinstance(p, str) else p
    return x


def valid(v):
    if v is None or isinstance(v, (bool, int, float)):
        return True
    if not isinstance(v, str):
        return False
    return v.strip() == '' or (len(v) <= 120 and set(v) <= OK)


def typed(t):
    low = t.lower()
    if low in ('null', 'none'):
        return None
    if low in ('true', 'false'):
        return low == 'true'
    for kind in (int, float):
        try:
            return kind(t)
        except ValueError:
            pass
    return t


def same(a, b):
    return type(a) is type(b) and (a == b or (a != a and b != b))


def cases(rng, tier):
    for d in DICTS:
        yield {'kind': 'notdict', 'tag': d}
    for v in VALUES:
        for k in ('a', {'py': 1}):
            yield {'kind': 'dict', 'items': [[k, v]]}
    for k in KEYS:
        yield {'kind': 'dict', 'items': [[k, 'x']]}
        yield {'kind': 'dict', 'items': [['first', ''], [k, 'x']]}
    for bad in VALUES:
        for before in ('', None, 1, 'x', True):
            yield {'kind': 'dict', 'items': [['p', before], ['q', bad], ['r', before]]}
    for t in TEXTS:
        yield {'kind': 'text', 'text': t}
    yield {'kind': 'texts', 'texts': []}
    yield {'kind': 'texts', 'texts': ['a:1', 'b', 'a:2']}
    yield {'kind': 'texts', 'texts': ['a:1', 'b', 'a']}
    alphabet = 'abZ09._+-: \t\n,=é²'
    while True:
        n = rng.random()
        word = lambda m: ''.join(rng.choice(alphabet if rng.random() < .3 else 'abZ09._+-') for _ in range(rng.choice([0, 1, 2, 3, 5, 119, 120, 121]) if m else rng.randint(0, 6)))
        if n < .5:
            yield {'kind': 'dict', 'items': [[rng.choice(KEYS) if rng.random() < .1 else word(0), rng.choice(VALUES) if rng.random() < .5 else word(1)] for _ in range(rng.randint(0, 6))]}
        elif n < .8:
            yield {'kind': 'text', 'text': ''.join(rng.choice(alphabet) for _ in range(rng.randint(0, 9)))}
        else:
            yield {'kind': 'texts', 'texts': [rng.choice(['a', 'b', 'c']) + rng.choice(['', ':', ':1', ':x', ': y ', ':none']) for _ in range(rng.randint(0, 6))]}


def outcome(f):
    try:
        return 'ok', f()
    except (TypeError, ValueError) as e:
        return 'rejected', e


def check(case):
    if case['kind'] in ('notdict', 'dict'):
        if case['kind'] == 'notdict':
            tag = build(case['tag'])
            want = tag is None
        else:
            tag = {build(k): build(v) for k, v in case['items']}
            want = all(isinstance(k, str) and valid(v) for k, v in tag.items())
        before = dict(tag) if isinstance(tag, dict) else tag
        for name, f in (('ensure_valid_tag', lambda: Task.ensure_valid_tag(tag)), ('Task.new', lambda: Task.new(args='x', tag=tag))):
            if name == 'Task.new' and not isinstance(tag, dict) and not tag:
                pass
            r, v = outcome(f)
            if (r == 'ok') != want:
                return f'{name}: {tag!r} is {"valid" if want else "not valid"} but was {"accepted" if r == "ok" else f"rejected ({v})"}'
            if isinstance(tag, dict) and {k: repr(x) for k, x in tag.items()} != {k: repr(x) for k, x in before.items()}:
                return f'{name}: the dictionary was changed'
            if r == 'ok' and name == 'Task.new' and {k: repr(x) for k, x in v.tag.items()} != {k: repr(x) for k, x in (before or {}).items()}:
                return f'Task.new: recorded tags {v.tag!r} instead of {before!r}'
        return
    def expected(t):
        name, colon, value = t.strip().partition(':')
        v = typed(value.strip()) if colon else ''
        return name.strip(), v, valid(v)
    if case['kind'] == 'text':
        name, v, ok = expected(case['text'])
        r, t = outcome(lambda: Tag.from_cmdline(case['text']))
        if (r == 'ok') != ok:
            return f'text: {case["text"]!r} was {"accepted" if r == "ok" else f"rejected ({t})"}'
        if r == 'ok' and (t.name != name or not same(t.value, v) or list(t.to_dict()) != [name]):
            return f'text: {case["text"]!r} read as {t!r} instead of {name!r}: {v!r}'
        return
    want, ok = {}, True
    for t in case['texts']:
        name, v, good = expected(t)
        ok = ok and good
        want[name] = v
    r, got = outcome(lambda: Tag.parse_cmdline_list(list(case['texts'])))
    if (r == 'ok') != ok:
        return f'texts: {case["texts"]!r} was {r}'
    if r == 'ok' and (list(got) != list(want) or not all(same(got[k], want[k]) for k in want)):
        return f'texts: {case["texts"]!r} read as {got!r} instead of {want!r}'
