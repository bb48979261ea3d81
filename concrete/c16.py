"""C16 on the real code: Template(t).expand(args) against an independent reading of the documentation."""
import math
import os.path
import subprocess
from concrete import lib
lib.setup(fake_clock=False)
from hypershell.core.template import Template

TEXTS = ['', 'a', 'echo ', ' > out', '\n', '}', 'x}y', '{\n', ' -n 2 ', '$', "'", '"', 'é', '{{'[:0], '\\', '@', '%', '=', '[0]', '\t', '1', 'true']
ARGS = ['/some/path/to/file.h5', 'a b c d e', '', 'x', '2', '4.67', 'true', 'None', 'null', '1e3', '-7', 'a.tar.gz', '.bashrc', '/a/.hidden', 'dir.d/file', 'dir/', '/', '//x', 'foo.', 'foo..', '..', '.', 'a\tb\nc', '  a  b ',
        'one', '{}', '{.}', 'a {[0]} b', "it's", 'x=1', '[1]', '@', '%', 'a/b.c/d.e f/g.h', 'é.ü', '/x.y/z', 'a..b', '0x10', '1_000', 'nan', 'False', 'NULL', '٣', 'a\\b', '{= x =}', '%s', '=', '}{']
SIMPLE = ['', '.', '..', '/', '/-', '-', '+', '++']
SLICES = ['0', '1', '-1', '-2', '7', '1:3', ':4', '-2:', '::2', '1::2', '::-1', ':', '::', '0:1', '3:1', '-3:-1', ':-1', '2:', '1:4:2', '4:0:-2', '00', '10', '-0', '5:9', '::0', '-9', '0:0']
BADSLICES = ['', 'a', '1 2', '1-1', '-1-1', '0,1', '1:2:3:4', '--1', '+1', '1.0', '0]+[1', 'x', '1:a', '- 1', '0);(', '1j', '٣', '01', '0 if 1 else 2', '0:1:1:', 'True', '(0)', '~0', '"a"', ' 0', '0 ', '1: 2', '[', ']', '0][0']
LAMBDAS = ['x', ' x ', 'x * 2', 'x + 1', 'str(x) + "!"', 'x == 2', 'x != 2', 'x >= 2', 'x if x == 2 else 0', 'math.floor(2.5)', 'path.basename(str(x))', 'os.path.sep', 'dt.date(2020, 1, 2)', 'type(x).__name__', 'x is None', 'len(str(x))',
           '1/0', 'undefined', 'x +', '', '[x, x]', 'x["a"]', '(lambda x=1: x)()', 'f"{1:3}"'[:0] + '"="', "'@'", '"%"', 'math.pi', 'sorted(str(x))', 'None', 'x == 2 or x == "a"']
SHELLS = ['echo @', ' echo @ ', 'echo hi', 'printf %s @', 'printf "%s-%s" a b', 'true', 'false', 'exit 3', 'echo a; echo b', 'basename @', 'echo "@ @"', "echo '='", 'printf "\\\\n  x \\\\n\\\\n"', 'printf "a\\\\377"', 'nonexistent-command-xyz', 'echo $((1+2))',
          'echo x >&2', 'test "@" = x', '', ' ']
UNKNOWN = ['?', '#', '@', '...', '//', '--', '+++', 'x', '0', '[', ']', '[0', '0]', '=', '%', '=x', 'x=', '%a', 'HOME', '[0]junk', '[0] [1]', '=x=1', '= x =y', '%echo a%b', 'x[0]', ' a', '{', '. .', './', '/.', '-/', '%=', '=%', '.+', '+.', '/+', '/--', '\\', '[0]%', '(', '[]=', '$', '*', '!', '1:2', ':', '[%%]'[:0] + '[=0=]', '%[0]', '=[', 'é']


def pattern(rng):
    k = rng.random()
    ws = lambda t: rng.choice(['', '', '', ' ', '  ', '\t']) + t + rng.choice(['', '', '', ' ', '\t '])
    if k < .3:
        return '{' + ws(rng.choice(SIMPLE)) + '}'
    if k < .5:
        return '{' + ws('[' + rng.choice(SLICES) + ']') + '}'
    if k < .57:
        return '{' + ws('[' + rng.choice(BADSLICES) + ']') + '}'
    if k < .75:
        return '{' + ws('=' + rng.choice(LAMBDAS) + '=') + '}'
    if k < .88:
        return '{' + ws('%' + rng.choice(SHELLS) + '%') + '}'
    if k < .97:
        return '{' + ws(rng.choice(UNKNOWN)) + '}'
    return '{' + ''.join(rng.choice('[]=%:0123-.+/ @x') for _ in range(rng.randint(0, 6))) + '}'


def cases(rng, tier):
    pats = ['{' + s + '}' for s in SIMPLE + UNKNOWN] + ['{[' + s + ']}' for s in SLICES + BADSLICES] + ['{=' + s + '=}' for s in LAMBDAS]
    for p in pats:
        for a in ('/some/path/to/file.h5', 'a b c d e', 'x', '2', ''):
            yield {'kind': 'expand', 'template': p, 'args': a}
    for s in SHELLS:
        for a in ('x', '2'):
            yield {'kind': 'expand', 'template': '{%' + s + '%}', 'args': a}
    for t in ('{}', 'a {} b {} c', '{.}{/}', '{}}', '{{}', '}{', '{', '}', '{\n}', '{}\n{}', '{ } {  . }', 'echo {} > {/-}.out', '{{}}', '{}{}', 'a\n{/}\nb'):
        for a in ARGS:
            yield {'kind': 'expand', 'template': t, 'args': a}
    for p in SIMPLE:
        for a in ARGS:
            yield {'kind': 'expand', 'template': '{' + p + '}', 'args': a}
    while True:
        n = rng.choice([0, 1, 1, 2, 2, 3, 4, 6])
        t = rng.choice(TEXTS)
        for _ in range(n):
            t += pattern(rng) + rng.choice(TEXTS)
        a = rng.choice(ARGS) if rng.random() < .7 else ' '.join(rng.choice(ARGS) for _ in range(rng.randint(1, 4)))
        yield {'kind': 'expand', 'template': t, 'args': a}


class Err(Exception):
    pass


def parent(p):
    i = p.rfind('/') + 1
    head = p[:i]
    return head.rstrip('/') if head and head.strip('/') else head


def base(p):
    return p[p.rfind('/') + 1:]


def splitext(p):
    b = base(p)
    lead = len(b) - len(b.lstrip('.'))
    k = b.rfind('.')
    if k < lead or k < 0:
        return p, ''
    return p[:len(p) - len(b) + k], b[k:]


def coerce(v):
    l = v.lower()
    if l in ('null', 'none'):
        return None
    if l in ('true', 'false'):
        return l == 'true'
    for f in (int, float):
        try:
            return f(v)
        except ValueError:
            pass
    return v


def one(key, args):
    k = key.strip()
    root, ext = splitext(args)
    table = {'': args, '.': parent(args), '..': parent(parent(args)), '/': base(args), '/-': splitext(base(args))[0], '-': root, '+': ext, '++': ext[1:]}
    if k in table:
        return table[k]
    if len(k) >= 2 and k[0] == '[' and k[-1] == ']':
        words, parts = args.split(), k[1:-1].split(':')
        vals = []
        for p in parts:
            d = p[1:] if p[:1] == '-' else p
            if p == '':
                vals.append(None)
            elif d and all(x in '0123456789' for x in d) and (len(d) == 1 or d[0] != '0' or set(d) == {'0'}):
                vals.append(int(p))
            else:
                raise Err('slice')
        if len(parts) > 3 or (len(parts) == 1 and vals[0] is None) or (len(vals) == 3 and vals[2] == 0):
            raise Err('slice')
        if len(parts) == 1:
            if not -len(words) <= vals[0] < len(words):
                raise Err('range')
            return words[vals[0]]
        return ' '.join(words[slice(*vals)])
    if len(k) >= 2 and k[0] == k[-1] == '=':
        import os, datetime
        try:
            return str(eval('lambda x: ' + k[1:-1], {'os': os, 'path': os.path, 'math': math, 'dt': datetime})(coerce(args)))
        except Exception as e:
            raise Err(str(e))
    if len(k) >= 2 and k[0] == k[-1] == '%':
        p = subprocess.run(['/bin/sh', '-c', k[1:-1].replace('@', args)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
        if p.returncode:
            raise Err('shell')
        try:
            return p.stdout.decode().strip()
        except UnicodeDecodeError:
            raise Err('decode')
    raise Err('unknown')


def oracle(t, args):
    out, i = '', 0
    while i < len(t):
        if t[i] == '{':
            j = t.find('}', i)
            if j >= 0 and '\n' not in t[i:j]:
                out += one(t[i + 1:j], args)
                i = j + 1
                continue
        out += t[i]
        i += 1
    return out


def check(case):
    t, a = case['template'], case['args']
    try:
        want = oracle(t, a)
    except Err as e:
        want = e
    try:
        got = Template(t).expand(a)
    except Template.Error as e:
        got = e
    except Exception as e:
        return f'error: {t!r} for {a!r}: {e!r} is not a template error'
    if isinstance(want, Exception):
        if not isinstance(got, Exception):
            return f'invalid: {t!r} for {a!r} is expanded to {got!r} instead of raising an error ({want})'
    elif isinstance(got, Exception):
        return f'refused: {t!r} for {a!r} is refused ({got}) instead of {want!r}'
    elif got != want or type(got) is not str:
        return f'value: {t!r} for {a!r} gives {got!r} instead of {want!r}'
