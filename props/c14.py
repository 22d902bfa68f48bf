"""C14: jsonParse(jsonStringify(v)) equals v"""

from symx.harness import Harness
from props.common import show, call, ref_type, same

BOUNDS = ('one to three symbolic strings of <= 4 characters (as value, element, key, before other elements) over { a . 0 , ] } " \\ / : blank, control characters, '
          'e-acute, U+2028, U+FFFF, U+1F600 }, exhaustive over {a . 0 , ] }}; numbers of <= 15 symbolic digits; trees to depth 3 (quick) / 5 (thorough); indent absent, 1..8')
ASSUMPTIONS = ['the pure-Python json encoder/decoder stands for the C accelerators (same documented results); replay uses the accelerated ones',
               'numbers from 1e16 on may be written in exponent form; the sign of a negative zero is left open', 'lone surrogates are outside the string model']

ALPHA = 'a.0,]}"\\/: \n\x1fé\u2028\uffff\U0001F600'
HEX = '0123456789abcdef'
ESC = {'"': '"', '\\': '\\', '/': '/', 'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}


class BadJSON(Exception):
    pass


class Reader:
    """Strict RFC 8259 reader, with checks of the key order and of the number spelling"""

    def __init__(self, text):
        self.t = text
        self.n = len(text)
        self.i = 0

    def bad(self, what):
        raise BadJSON(f'{what} at {self.i}')

    def ws(self):
        while self.i < self.n and self.t[self.i] in ' \n\r\t':
            self.i += 1

    def take(self, c):
        if self.i < self.n and self.t[self.i] == c:
            self.i += 1
            return True
        return False

    def need(self, c):
        if not self.take(c):
            self.bad(f'expected {c}')

    def doc(self):
        v = self.value()
        self.ws()
        if self.i != self.n:
            self.bad('text after the value')
        return v

    def word(self, w, v):
        for c in w:
            self.need(c)
        return v

    def value(self):
        self.ws()
        if self.i >= self.n:
            self.bad('no value')
        c = self.t[self.i]
        if c == '"':
            return self.string()
        if c == '[':
            return self.array()
        if c == '{':
            return self.object()
        if c == 'n':
            return self.word('null', None)
        if c == 't':
            return self.word('true', True)
        if c == 'f':
            return self.word('false', False)
        return self.number()

    def array(self):
        self.need('[')
        self.ws()
        out = []
        if self.take(']'):
            return out
        while True:
            out.append(self.value())
            self.ws()
            if self.take(']'):
                return out
            self.need(',')

    def object(self):
        self.need('{')
        self.ws()
        out = {}
        last = None
        if self.take('}'):
            return out
        while True:
            self.ws()
            k = self.string()
            if last is not None and not last < k:
                self.bad('keys not in ascending order')
            last = k
            self.ws()
            self.need(':')
            out[k] = self.value()
            self.ws()
            if self.take('}'):
                return out
            self.need(',')

    def hex4(self):
        v = 0
        for _ in range(4):
            if self.i >= self.n:
                self.bad('end of text')
            k = HEX.find(self.t[self.i].lower())
            if k < 0:
                self.bad('hexadecimal digit')
            v = v * 16 + k
            self.i += 1
        return v

    def string(self):
        self.need('"')
        out = ''
        while True:
            if self.i >= self.n:
                self.bad('end of text in a string')
            c = self.t[self.i]
            self.i += 1
            if c == '"':
                return out
            if c < ' ':
                self.bad('raw control character')
            if c == '\\':
                e = self.t[self.i:self.i + 1]
                self.i += 1
                if e == 'u':
                    v = self.hex4()
                    if 0xd800 <= v < 0xdc00:
                        self.need('\\')
                        self.need('u')
                        w = self.hex4()
                        if not 0xdc00 <= w < 0xe000:
                            self.bad('lone surrogate')
                        v = 0x10000 + (v - 0xd800) * 0x400 + w - 0xdc00
                    elif 0xdc00 <= v < 0xe000:
                        self.bad('lone surrogate')
                    out = out + chr(v)
                else:
                    for k, x in ESC.items():
                        if e == k:
                            out = out + x
                            break
                    else:
                        self.bad('escape')
            else:
                out = out + c

    def digits(self):
        k = self.i
        while self.i < self.n and self.t[self.i] in '0123456789':
            self.i += 1
        if self.i == k:
            self.bad('digit')
        return self.t[k:self.i]

    def number(self):
        k = self.i
        self.take('-')
        first = self.digits()
        if len(first) > 1 and first[0] == '0':
            self.bad('leading zero')
        frac = None
        exp = False
        if self.take('.'):
            frac = self.digits()
        if self.i < self.n and self.t[self.i] in 'eE':
            exp = True
            self.i += 1
            if not self.take('-'):
                self.take('+')
            self.digits()
        if frac is not None and not exp and not any(c != '0' for c in frac):
            self.bad('fraction on an integral number')
        if frac is None and not exp and len(first) > 15:
            return int(self.t[k:self.i])
        return float(self.t[k:self.i])


def verify(ctx, bs, v, indent=0):
    """The text of v is valid, means v for the strict reader, and is read back by jsonParse"""
    t = call(bs, 'jsonStringify', [v] if indent == 0 else [v, indent])
    where = lambda: f'indent {indent}: {show(v)} -> {show(t)}'          # noqa: E731
    ctx.check(isinstance(t, str), lambda: 'no text, ' + where())
    got, bad = None, None
    try:
        got = Reader(t).doc()
    except BadJSON as exc:
        bad = str(exc)
    ctx.check(bad is None, lambda: f'{bad}, {where()}')
    ctx.check(same(got, v), lambda: f'the text means {show(got)}, {where()}')
    back = call(bs, 'jsonParse', [t])
    ctx.reach('indented' if indent else 'plain')
    ctx.check(same(back, v), lambda: f'jsonParse gives {show(back)}, {where()}')
    return t


def pick_indent(ctx):
    """No indent argument or 1..8, as int or float"""
    k = ctx.choice('indent', 9)
    if k and ctx.flag('indent.f'):
        return float(k)
    return k


def place(ctx, s, t=None):
    """A value around the string s"""
    way = ctx.choice('place', 10)
    if way == 0:
        return s
    if way == 1:
        return [s]
    if way == 2:
        return [s, 1]
    if way == 3:
        return {'k': s}
    if way == 4:
        return {s: 1.0}
    if way == 5:
        return [2.0, s, 3.5, 'x.0']
    if way == 6:
        return {s: {s: s}}
    if way == 7:
        return [[s], {'a': s, 'b.0': 10.0}]
    if way == 8:
        return {'a': 1.0, s + 'z': [s, True, None]}
    return [s, s + '"', '"' + s]


def strings(ctx, bs):
    """Any short string, anywhere"""
    n = ctx.choice('n', ctx.params['n'] + 1)
    s = ctx.str('s', n, ALPHA)
    v = place(ctx, s)
    verify(ctx, bs, v, pick_indent(ctx))


CONTROL = ''.join(chr(i) for i in range(0x21)) + '"\\\x7f\x80\x85\x9f\xa0\xad\u0378\u200b\u2028\u2029\ud7ff\ue000\ufeff\ufffe\uffff\U00010000\U0010ffff'


def characters(ctx, bs):
    """Every control character and other odd characters, alone, doubled and between others"""
    c = ctx.str('c', 1, CONTROL)
    way = ctx.choice('way', 5)
    s = c if way == 0 else c + c if way == 1 else 'a' + c + 'b' if way == 2 else c + '0' if way == 3 else '\\' + c
    v = ctx.pick('v', ('s', 'list', 'key'))
    verify(ctx, bs, s if v == 's' else [s, 1.0] if v == 'list' else {s: s}, ctx.pick('indent', (0, 2)))


def escaped(ctx, bs):
    """Strings that look like escape sequences"""
    n = ctx.choice('n', ctx.params['n'] + 1)
    s = ctx.pick('head', ('\\u', '\\', '\\\\u', 'u', '\\x', '%', '&#', '\\n', '\\ud83d\\u')) + ctx.str('s', n, '0048"\\d')
    verify(ctx, bs, ctx.pick('v', ([s], s, {s: None})), 0)


def clean_up(ctx, bs):
    """Every string of <= 4 of the characters that look like number endings"""
    n = ctx.choice('n', ctx.params['n'] + 1)
    s = ctx.str('s', n, 'a.0,]}')
    where = ctx.choice('where', 4)
    verify(ctx, bs, s if where == 0 else [s, 5.0] if where == 1 else {'x': s} if where == 2 else {s: 5.0}, ctx.pick('indent', (0, 2)))


def after_quote(ctx, bs):
    """Escaped quotes and backslashes next to number endings, two strings"""
    n = ctx.params['n']
    s = ctx.str('s', ctx.choice('n', n + 1), '\\".0,a ')
    t = ctx.str('t', ctx.choice('m', n + 1), '\\".0]')
    way = ctx.choice('way', 3)
    v = [s, t] if way == 0 else [s, 4.0, t, 3.0] if way == 1 else {'a' + s: t, 'b': 7.0}
    verify(ctx, bs, v, ctx.pick('indent', (0, 1)))


def numbers(ctx, bs):
    """Numbers of symbolic digits, in every position"""
    from symx import dec
    nd = ctx.choice('nd', ctx.params['nd']) + 1
    x = dec.decimal(ctx, 'x', ctx.flag('neg'), nd, ctx.pick('exp', (0, 1, 3, 8, 15, 20, -1, -2, -3, -5, -8, -20)) - (nd if ctx.flag('shift') else 0))
    way = ctx.choice('way', 7)
    if way == 0:
        v = x
    elif way == 1:
        v = [x]
    elif way == 2:
        v = [x, x]
    elif way == 3:
        v = {'a': x, 'b': [x, 'x']}
    elif way == 4:
        v = ['.0', x]
    elif way == 5:
        v = [[[x], 1], x]
    else:
        v = {'.0': x}
    verify(ctx, bs, v, pick_indent(ctx))


SPECIAL = (0.0, 0, 5e-324, 1.7976931348623157e308, 1e16, 1e15, 1e22, 9007199254740993, 10 ** 15, 0.1, 1e-7, 123456789012345680.0, 1 / 3, 100.0, 1.05, 10.0, 0.5, 1e100, 1.5e300, 2.0 ** 53, -1.0, -0.25, 1200000.0, 1.0e-10)


def tree(ctx, name, depth, left):
    """A JSON value; left = [containers that may still be opened]"""
    k = ctx.pick(name + '.k', ('null', 'bool', 'int', 'num', 'special', 'str') + (('list', 'obj', 'dup') if depth > 0 and left[0] > 0 else ()))
    if k == 'null':
        return None
    if k == 'bool':
        return ctx.flag(name + '.b')
    if k == 'int':
        return ctx.int(name + '.i', -11, 111)
    if k == 'num':
        return ctx.num(name + '.f', -3, 3, 8)
    if k == 'special':
        return ctx.pick(name + '.x', SPECIAL)
    if k == 'str':
        return ctx.str(name + '.s', ctx.choice(name + '.n', 3), 'a.0,]"\\\n\U0001F600')
    left[0] -= 1
    if k == 'dup':
        x = tree(ctx, name + '.d', depth - 1, left)
        way = ctx.choice(name + '.w', 5)
        return ([x, {'p': x, 'o': x}], [x, x], {'b': x, 'a': [x], '': x}, [x, [x], 1.0, x], [[x, x], x])[way]
    n = ctx.choice(name + '.n', 3)
    if k == 'list':
        return [tree(ctx, f'{name}.{i}', depth - 1, left) for i in range(n)]
    out = {}
    for i in range(n):
        key = ctx.pick(f'{name}.{i}.key', ('b', 'a', '', 'B', '\U00010000', '\uffff', 'a.0', '"'))
        out[key] = tree(ctx, f'{name}.{i}', depth - 1, left)
    return out


def trees(ctx, bs):
    """Nested values"""
    v = tree(ctx, 'v', ctx.params['depth'], [ctx.params['containers']])
    verify(ctx, bs, v, pick_indent(ctx))


def wide(ctx, bs):
    """Many members: every kind of plain value under up to 8 keys or at up to 12 places"""
    n = ctx.choice('n', ctx.params['n']) + 3
    pair = [ctx.pick(f'v{i}', (None, False, 0.0, '', True, 1.0, 'null', [], {})) for i in range(2)]
    values = [pair[0] if ctx.flag(f'p{i}') else pair[1] for i in range(n)]
    form = ctx.pick('form', ('object', 'array', 'inner', 'table'))
    if form == 'array':
        v = values
    else:
        v = {}
        for i, x in enumerate(values):
            v['' if i == 2 else f'k{i * 7 % 11}'] = x
        if form == 'inner':
            v = [v, {'a': v}]
        elif form == 'table':
            v = [v, {'a': None, 'b': None, 'c': None, 'd': 1.0}, {'a': None}]
    verify(ctx, bs, v, ctx.pick('indent', (0, 2)))


def deep(ctx, bs):
    """Depth up to 6 around one symbolic string or number"""
    leaf = ctx.choice('leaf', 3)
    v = ctx.str('s', ctx.choice('n', 3), '.0,]}"\\ ') if leaf == 0 else ctx.num('x', -2, 2, 4) if leaf == 1 else ctx.pick('v', ([], {}, None, True, [[], []], {'': {}}))
    for i in range(ctx.choice('depth', 6) + 1):
        w = ctx.choice(f'w{i}', 4)
        v = [v] if w == 0 else [v, 1.0] if w == 1 else {'k': v} if w == 2 else {'k.0': 0.0, 'a': [v], 'b': []}
    verify(ctx, bs, v, pick_indent(ctx))


def keys(ctx, bs):
    """Objects with up to three symbolic keys: order and contents"""
    ks = []
    for i in range(ctx.choice('n', 3) + 1):
        ks.append(ctx.str(f'k{i}', ctx.choice(f'k{i}.n', 3), 'aB.0"\\\uffff\U00010000é'))
    v = {}
    for i, k in enumerate(ks):
        v[k] = float(i)
    verify(ctx, bs, [v] if ctx.flag('in') else v, ctx.pick('indent', (0, 3)))
    ctx.reach(f'{len(v)} keys')


def distinct(ctx, bs):
    """Two values of near shapes: same text exactly when equal"""
    a = ctx.str('a', ctx.choice('na', 3), 'a.0,"\\')
    b = ctx.str('b', ctx.choice('nb', 3), 'a.0,"\\')
    shapes = (lambda s, t: s, lambda s, t: [s], lambda s, t: [s, t], lambda s, t: {'a': s}, lambda s, t: {s: 1}, lambda s, t: [s + t], lambda s, t: [s + ',' + t], lambda s, t: [[s], t],
              lambda s, t: [s, [t]], lambda s, t: {'a': s, 'b': t}, lambda s, t: {s: t}, lambda s, t: [{'a': s}, {'b': t}])
    v = ctx.pick('v', shapes)(a, b)
    w = ctx.pick('w', shapes)(b, a)
    x = call(bs, 'jsonStringify', [v])
    y = call(bs, 'jsonStringify', [w])
    ctx.reach('same' if x == y else 'different')
    ctx.check((x == y) == same(v, w), lambda: f'{show(v)} and {show(w)}: {show(x)} and {show(y)}')


def scalars(ctx, bs):
    """Values that look alike have different texts: numbers, words and strings that spell them"""
    n = ctx.int('n', -2, 12)
    vals = (n, str(n), float(n), [n], [str(n)], None, 'null', True, 'true', False, 'false', '', [], {}, [[]], [None], [''], {'': None}, {'': ''}, n / 4, str(n) + '.0', 0, '0')
    v = ctx.pick('v', vals)
    w = ctx.pick('w', vals)
    x = verify(ctx, bs, v)
    y = verify(ctx, bs, w)
    ctx.check((x == y) == same(v, w), lambda: f'{show(v)} and {show(w)}: {show(x)} and {show(y)}')


def keyed(ctx, bs):
    """Values used as grouping keys: dataAggregate gives one row per different value, dataJoin joins equal values only"""
    a = ctx.str('a', ctx.choice('na', 4), 'a.0,')
    b = ctx.str('b', ctx.choice('nb', 4), 'a.0,')
    if ctx.flag('list'):
        a, b = [a], [b]
    ctx.reach('same' if same(a, b) else 'different')
    if ctx.flag('join'):
        r = call(bs, 'dataJoin', [[{'k': a}], [{'k': b, 'm': 1}], 'k', None, False])
        ctx.check(ref_type(r) == 'array' and (len(r) == 1 and 'm' in r[0]) == same(a, b), lambda: f'joining {show(a)} with {show(b)} gives {show(r)}')
    else:
        r = call(bs, 'dataAggregate', [[{'k': a, 'v': 1}, {'k': b, 'v': 2}], {'categories': ['k'], 'measures': [{'field': 'v', 'function': 'sum'}]}])
        ctx.check(ref_type(r) == 'array' and (len(r) == 1) == same(a, b), lambda: f'grouping {show(a)} and {show(b)} gives {show(r)}')


def to_string(ctx, bs):
    """Containers turned into text by other means are JSON too"""
    s = ctx.str('s', ctx.choice('n', 4), 'a.0,]}"\\')
    x = ctx.num('x', -2, 2, 4)
    v = ctx.pick('v', ([s, x], {s: x}, {'a': [s], 'b': x}, [[x], s]))
    w = ctx.choice('w', 3)
    t = call(bs, 'stringNew', [v]) if w == 0 else call(bs, 'arrayJoin', [[v], ',']) if w == 1 else bs.value.value_json(v)
    got, bad = None, None
    try:
        got = Reader(t).doc()
    except BadJSON as exc:
        bad = str(exc)
    ctx.reach('container')
    ctx.check(bad is None and same(got, v), lambda: f'{show(v)} -> {show(t)}: {bad or show(got)}')


HARNESSES = [
    Harness(strings, weight=2, order='random', strata=3, quick={'n': 3}, thorough={'n': 4}, bounds='<= n symbolic characters of 16, 10 positions, indents 0..8'),
    Harness(characters, weight=0.7, bounds='every control character and 18 others, 5 ways, 3 places'),
    Harness(escaped, weight=0.7, order='random', quick={'n': 4}, thorough={'n': 5}, bounds='9 escape heads and <= n symbolic characters'),
    Harness(clean_up, weight=1.5, quick={'n': 4}, bounds='exhaustive: <= 4 characters of a . 0 , ] }'),
    Harness(after_quote, weight=1, order='random', quick={'n': 2}, thorough={'n': 3}, bounds='two strings of <= n'),
    Harness(numbers, weight=1.5, order='random', quick={'nd': 15}, bounds='<= 15 symbolic digits, 24 exponents, 7 positions'),
    Harness(trees, weight=2, order='random', strata=3, quick={'depth': 3, 'containers': 4}, thorough={'depth': 5, 'containers': 6}, bounds='depth, containers as given'),
    Harness(wide, weight=0.7, order='random', quick={'n': 6}, thorough={'n': 9}, bounds='3 to 2 + n members'),
    Harness(deep, order='random', bounds='depth <= 6'),
    Harness(keys, order='random', bounds='<= 3 symbolic keys of <= 2 characters'),
    Harness(distinct, order='random', bounds='12 x 12 shapes over two symbolic strings'),
    Harness(scalars, order='random', bounds='23 x 23 look-alikes'),
    Harness(keyed, bounds='two symbolic strings of <= 3 characters'),
    Harness(to_string, bounds='<= 3 symbolic characters and a number, 4 shapes, 3 ways'),
]
QUICK_SECONDS = 75
