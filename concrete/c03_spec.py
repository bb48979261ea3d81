import os
LINES = ['echo 1', ' echo 2 ', 'a b\n', '\techo "x"\n', '', '   \n', '2024-01-01', 'x' * 300, 'caf\u00e9', '{}', 'echo {}', '%d', '0', 'null', '#']


def spec_args(line, template):
    a = line.strip()
    e = {'{}': lambda: a, 'echo {}': lambda: 'echo ' + a, 'run {}': lambda: 'run ' + a, 'x {} y': lambda: f'x {a} y', 'x {}': lambda: 'x ' + a,
         'run {/} x': lambda: 'run ' + os.path.basename(a) + ' x', '{.}': lambda: os.path.dirname(a)}[template]()
    return e.strip()
