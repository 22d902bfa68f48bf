"""C20: diffLines of the shipped include library, and the shipped scripts themselves"""

import os

from symx.harness import Harness
from props.common import show, ident, snapshot

BOUNDS = ('line arrays of <= 4 x 4 (quick) / 6 x 6 (thorough) symbolic one-letter lines over {a, b, c} (all equality patterns, exhaustive where stated); strings and arrays of strings of <= 5 / 8 characters over {a, b, LF, CR}; '
          'texts of up to 40 fixed lines around symbolic lines; every file of the include directory')
ASSUMPTIONS = ['diff.bare runs in the real (symbolically executed) interpreter, fetched by the fetch function of the command line',
               'a line ends at LF or CR LF (a lone CR is part of its line)', 'inputs are strings or arrays of strings, as documented']

KINDS = ('Identical', 'Add', 'Remove')
LOADED = {}


def options_of(bs, g, logs=None):
    return {'fetchFn': bs.bare._fetch_include, 'systemPrefix': bs.bare._FETCH_INCLUDE_PREFIX, 'globals': g, 'logFn': (logs.append if logs is not None else None), 'urlFn': None}


def loaded(bs):
    """The globals after include <diff.bare> (the include has no symbolic input: it runs once per process)"""
    if 'diff' not in LOADED:
        g = {}
        bs.runtime.execute_script(bs.parser.parse_script('include <diff.bare>'), options_of(bs, g))
        LOADED['diff'] = g
        LOADED['call'] = bs.parser.parse_script('return diffLines(left, right)')
    g = dict(LOADED['diff'])
    return g


def diff(ctx, bs, left, right):
    g = loaded(bs)
    g['left'] = left
    g['right'] = right
    logs = []
    r = bs.runtime.execute_script(LOADED['call'], options_of(bs, g, logs))
    ctx.check(not logs, lambda: f'diffLines({show(left)}, {show(right)}) logs {logs}')
    return r


def text_lines(text):
    """The lines of a text: LF or CR LF between lines"""
    out, line = [], ''
    i, n = 0, len(text)
    while i < n:
        if text[i] == '\n':
            out.append(line)
            line = ''
        elif text[i] == '\r' and i + 1 < n and text[i + 1] == '\n':
            out.append(line)
            line = ''
            i += 1
        else:
            line = line + text[i]
        i += 1
    out.append(line)
    return out


def lines_of(value):
    if isinstance(value, str):
        return text_lines(value)
    out = []
    for part in value:
        out += text_lines(part)
    return out


def same_lines(a, b):
    return len(a) == len(b) and all(x is y or x == y for x, y in zip(a, b))


def verify(ctx, left, right, result, left_lines, right_lines):
    text = lambda: f'diffLines({show(left)}, {show(right)}) = {show(result)}'       # noqa: E731
    ctx.reach()
    ctx.check(isinstance(result, list), text)
    mine, other = [], []
    for block in result:
        ok = isinstance(block, dict) and set(block) == {'type', 'lines'} and isinstance(block['lines'], list) and len(block['lines']) > 0 and all(isinstance(x, str) for x in block['lines'])
        ctx.check(ok and block['type'] in KINDS, lambda: f'{text()}: block {show(block)}')
        if block['type'] != 'Add':
            mine += block['lines']
        if block['type'] != 'Remove':
            other += block['lines']
    ctx.check(same_lines(mine, left_lines), lambda: f'{text()}: Identical and Remove give {show(mine)}, the left lines are {show(left_lines)}')
    ctx.check(same_lines(other, right_lines), lambda: f'{text()}: Identical and Add give {show(other)}, the right lines are {show(right_lines)}')
    if any(b['type'] != 'Identical' for b in result):
        ctx.check(not same_lines(left_lines, right_lines), lambda: f'{text()}: identical inputs')


def letters(ctx, name, n, alpha='abc'):
    return [ctx.str(f'{name}{i}', 1, alpha) for i in range(n)]


def run(ctx, bs, left, right):
    before = (snapshot(left), snapshot(right))
    result = diff(ctx, bs, left, right)
    verify(ctx, left, right, result, lines_of(left), lines_of(right))
    ctx.check(ident(left, before[0]) and ident(right, before[1]), lambda: f'diffLines changed its arguments: {show(before)} became {show(left)}, {show(right)}')


def arrays(ctx, bs):
    """Two arrays of one-letter lines: every pattern of equal lines"""
    n = ctx.params['n']
    left = letters(ctx, 'l', ctx.choice('nl', n + 1))
    right = letters(ctx, 'r', ctx.choice('nr', n + 1))
    run(ctx, bs, left, right)


def longer(ctx, bs):
    """Arrays of the full length, any pattern"""
    n = ctx.params['n']
    nl = ctx.choice('nl', 2)
    nr = ctx.choice('nr', 3)
    run(ctx, bs, letters(ctx, 'l', n - nl), letters(ctx, 'r', n - nr))


def value(ctx, name, n):
    """A string or an array of strings, with line ends inside"""
    if ctx.flag(name + '.text'):
        return ctx.str(name, ctx.choice(name + '.n', n + 1), 'ab\n\r')
    out = []
    for i in range(ctx.choice(name + '.parts', 4)):
        out.append(ctx.str(f'{name}{i}', ctx.choice(f'{name}{i}.n', 3), 'ab\n\r'))
    return out


def texts(ctx, bs):
    """Strings and arrays of strings with line ends"""
    run(ctx, bs, value(ctx, 'l', ctx.params['n']), value(ctx, 'r', ctx.params['n']))


def endings(ctx, bs):
    """The same lines with LF, CR LF, as an array, with one line changed or not"""
    lines = [ctx.str(f'l{i}', ctx.choice(f'l{i}.n', 3), 'ab') for i in range(ctx.choice('n', 4) + 1)]
    other = list(lines)
    k = ctx.choice('change', len(lines) + 1)
    if k < len(lines):
        other[k] = ctx.str('other', ctx.choice('other.n', 3), 'ab')
    forms = (lambda x: '\n'.join(x), lambda x: '\r\n'.join(x), lambda x: x, lambda x: ['\n'.join(x[:2])] + x[2:], lambda x: '\r\n'.join(x[:2]) + ''.join(['\n' + y for y in x[2:]]))
    left, right = ctx.pick('lf', forms)(lines), ctx.pick('rf', forms)(other)
    result = diff(ctx, bs, left, right)
    verify(ctx, left, right, result, lines, other)


def identical(ctx, bs):
    """Identical inputs, also one and the same array"""
    left = value(ctx, 'l', ctx.params['n'])
    right = left if ctx.flag('same') or isinstance(left, str) else list(left)
    result = diff(ctx, bs, left, right)
    verify(ctx, left, right, result, lines_of(left), lines_of(right))
    ctx.check(all(b['type'] == 'Identical' for b in result), lambda: f'diffLines({show(left)}, {show(right)}) = {show(result)}')


def around(ctx, bs):
    """Symbolic lines within long common parts"""
    pre = [f'p{i}' for i in range(ctx.pick('pre', (0, 1, 12)))]
    mid = [f'm{i % 3}' for i in range(ctx.pick('mid', (0, 2, 5)))]
    post = [f'q{i // 2}' for i in range(ctx.pick('post', (0, 3, 10)))]
    n = ctx.params['n']
    a = letters(ctx, 'a', ctx.choice('na', n + 1), 'abc')
    b = letters(ctx, 'b', ctx.choice('nb', n + 1), 'abc')
    c = letters(ctx, 'c', ctx.choice('nc', 2), 'abc')
    d = letters(ctx, 'd', ctx.choice('nd', 2), 'abc')
    left, right = pre + a + mid + c + post, pre + b + mid + d + post
    if ctx.flag('text'):
        left, right = '\n'.join(left), '\r\n'.join(right)
    run(ctx, bs, left, right)


def again(ctx, bs):
    """A second call, and a second include, do not depend on the first"""
    g = loaded(bs)
    g['left'], g['right'] = letters(ctx, 'a', ctx.choice('na', 3), 'ab'), letters(ctx, 'b', ctx.choice('nb', 3), 'ab')
    g['left2'], g['right2'] = letters(ctx, 'c', ctx.choice('nc', 3), 'ab'), letters(ctx, 'd', ctx.choice('nd', 3), 'ab')
    if 'twice' not in LOADED:
        LOADED['twice'] = bs.parser.parse_script('first = diffLines(left, right)\ninclude <diff.bare>\nsecond = diffLines(left2, right2)\nreturn arrayNew(first, second)')
    r = bs.runtime.execute_script(LOADED['twice'], options_of(bs, g))
    verify(ctx, g['left'], g['right'], r[0], g['left'], g['right'])
    verify(ctx, g['left2'], g['right2'], r[1], g['left2'], g['right2'])


def scripts(bs):
    return sorted(name for name in os.listdir(os.path.join(bs.src, 'include')) if name.endswith('.bare'))


def shipped(ctx, bs):
    """Every shipped script parses, validates and is lint-clean, as fetched by a system include"""
    names = scripts(bs)
    ctx.check(len(names) >= 7, lambda: f'shipped scripts: {names}')
    name = ctx.pick('name', names)
    ctx.reach()
    try:
        text = bs.bare._fetch_include({'url': bs.bare._FETCH_INCLUDE_PREFIX + name})
        model = bs.parser.parse_script(text)
        model = bs.model.validate_script(model)
        warnings = bs.model.lint_script(model)
    except Exception as e:      # pylint: disable=broad-exception-caught
        ctx.fail(f'{name}: {type(e).__name__}: {e}')
    ctx.check(warnings == [], lambda: f'{name}: {warnings}')
    # the include statement finds it
    asked = []

    def fetch(request):
        asked.append(request['url'])
        return ''
    g = {}
    o = options_of(bs, g)
    o['fetchFn'] = fetch
    bs.runtime.execute_script(bs.parser.parse_script(f'include <{name}>'), o)
    ctx.check(asked == [bs.bare._FETCH_INCLUDE_PREFIX + name], lambda: f'include <{name}> fetches {asked}')


HARNESSES = [
    Harness(arrays, weight=3, quick={'n': 4}, thorough={'n': 5}, bounds='<= n x n one-letter lines, depth first'),
    Harness(longer, weight=2, order='random', quick={'n': 6}, thorough={'n': 8}, bounds='n-1..n x n-2..n one-letter lines'),
    Harness(texts, weight=2, order='random', quick={'n': 5}, thorough={'n': 7}, bounds='texts of <= n characters, arrays of <= 3 strings of <= 2'),
    Harness(endings, order='random', bounds='<= 4 lines of <= 2 characters, five forms each side'),
    Harness(identical, quick={'n': 4}, thorough={'n': 6}, bounds='texts of <= n characters, arrays of <= 3 strings of <= 2'),
    Harness(around, order='random', quick={'n': 2}, thorough={'n': 4}, bounds='up to 31 lines, <= 2n+2 of them symbolic'),
    Harness(again, order='random', bounds='two calls of <= 2 x 2 lines'),
    Harness(shipped, weight=.5, bounds='every shipped script'),
]
QUICK_SECONDS = 75
