"""C02: expression text parses to the tree the precedence rules dictate"""

from symx.harness import Harness
from props.common import show
from props.exprs import ref_parse, tree_eq, unparse, DontCare

BOUNDS = ('operator chains of <= 3 / 4 operators of two symbolic characters and of <= 5 / 7 valid operators (symbolic where several share a form), unary prefixes, groups and calls; arbitrary texts of <= 5 / 7 '
          'symbolic characters over 14-18 symbols; holes of <= 4 / 6 symbolic characters inside 13 templates; number, string and bracket texts of <= 5 / 7 symbolic characters')
ASSUMPTIONS = ['blanks are space, tab, line feed; digits are ASCII', 'not fixed by the property and excluded: a quote or bracket closed only by an escaped delimiter, blanks at the edges '
               'of a bracketed name, two backslashes inside brackets', 'one-letter names are not callable (documented identifier rule of calls)']


def compare(ctx, bs, text):
    try:
        want = ref_parse(text)
    except DontCare:
        ctx.assume(False)
    try:
        got = bs.parser.parse_expression(text)
    except bs.parser.BareScriptParserError:
        got = None
    ctx.reach('tree' if want is not None else 'reject')
    if want is None:
        ctx.check(got is None, lambda: f'{show(text)} is no expression but parses to {unparse(got)}')
    else:
        ctx.check(got is not None, lambda: f'{show(text)} rejected, expected {unparse(want)}')
        ctx.check(tree_eq(got, want), lambda: f'{show(text)} parses to {unparse(got)}, expected {unparse(want)}')
    # deterministic
    if ctx.params.get('again') and got is not None:
        ctx.check(tree_eq(bs.parser.parse_expression(text), got), lambda: f'{show(text)} parses differently the second time')


OPCH = '*/%+-<=>!&| '
OPERANDS = ('a', '1', '-b', '!c', '(d)', '-(e)', 'f2(g)', '!-h', "'s'", '[x y]', '--i', '2.5')


def ops(ctx, bs):
    """a op b op c ... with two symbolic characters per operator"""
    n = ctx.params['n']
    text = 'a'
    for i in range(n):
        text = text + ctx.str(f'o{i}', 2, OPCH) + 'bcdefghi'[i]
    compare(ctx, bs, text)


VALID = ('**', '*', '/', '%', '+', '-', '<=', '<', '>=', '>', '==', '!=', '&&', '||')


def oper(ctx, name):
    kind = ctx.choice(name, 5)
    if kind == 0:
        return ctx.str(name, 1, '*/%+-<>')
    if kind == 1:
        return ctx.str(name, 1, '<>=!') + '='
    return ('**', '&&', '||')[kind - 2]


def chain(ctx, bs):
    """Longer chains of valid operators with unary prefixes and parentheses around any sub-range"""
    n = ctx.choice('n', ctx.params['n']) + 1
    parts = []
    depth = 0
    for i in range(n + 1):
        if i:
            parts.append(' ' + oper(ctx, f'op{i}') + ' ')
        if i < n and depth < 2:
            if ctx.flag(f'open{i}'):
                parts.append(ctx.pick(f'pre{i}', ('(', '!(', '-(', 'ff(')))
                depth += 1
        parts.append(ctx.pick(f'un{i}', ('', '!', '-')) + 'abcdefghi'[i])
        if depth and ctx.flag(f'close{i}'):
            parts.append(')')
            depth -= 1
    parts.append(')' * depth)
    compare(ctx, bs, ''.join(parts))


def nests(ctx, bs):
    """Any nesting of groups, unary operators, calls and symbolic operators"""
    left = [ctx.params['n']]
    names = iter('abcdefghijklmnop')

    def expr(tag):
        left[0] -= 1
        k = ctx.pick('k' + tag, ('name', 'group', 'op', 'unary', 'call') if left[0] > 0 else ('name',))
        if k == 'name':
            return next(names)
        if k == 'group':
            return '(' + expr(tag + 'g') + ')'
        if k == 'unary':
            return ctx.str('u' + tag, 1, '!-') + expr(tag + 'u')
        if k == 'call':
            args = [expr(tag + f'c{i}') for i in range(ctx.choice('n' + tag, 3))]
            return 'ff(' + ', '.join(args) + ')'
        a = expr(tag + 'l')
        return a + ' ' + oper(ctx, 'o' + tag) + ' ' + expr(tag + 'r')

    compare(ctx, bs, expr(''))


def operands(ctx, bs):
    """Operand forms around two operators"""
    a, b, c = ctx.pick('a', OPERANDS), ctx.pick('b', OPERANDS), ctx.pick('c', ('c', '!c', '(c)'))
    sep = ctx.pick('sep', ('', ' '))
    compare(ctx, bs, a + sep + ctx.pick('o1', ('**', '-', '<', '||')) + sep + b + sep + ctx.pick('o2', ('**', '-', '==', '||')) + sep + c)


def chars(ctx, bs):
    """Arbitrary symbolic text"""
    n = ctx.choice('n', ctx.params['n'] + 1)
    compare(ctx, bs, ctx.str('t', n, ctx.params['alpha']))


TEMPLATES = (('max1(a,', ', b)'), ('(a', 'b) * c'), ('', 'a * b'), ('a + ', ''), ('a ', ' b'), ('f1(', ')'), ('f1', '(a)'), ('-', ' ** c'), ('(', ''), ('a && b', '|| c'),
             ('1', ''), ("f1('x', y", ')'), ('a * (b', ''), ("'a' + ", ' + "b"'))


def holes(ctx, bs):
    """A symbolic hole inside a template"""
    pre, post = ctx.pick('t', TEMPLATES)
    compare(ctx, bs, pre + ctx.str('h', ctx.choice('n', ctx.params['n'] + 1), 'a1 (),!-*=&<') + post)


def calls(ctx, bs):
    """Calls and groups with a symbolic argument list, blanks around and text after"""
    text = ctx.pick('lead', ('', ' ')) + ctx.pick('head', ('ff(', '(', 'a + ff(', 'ff( gg(')) + ctx.str('h', ctx.choice('n', ctx.params['n'] + 1), 'a, 1)(-')
    compare(ctx, bs, text + ctx.pick('tail', (')', ') ', '', ') + a', '))', ') ,', ' )\t')))


def numbers(ctx, bs):
    """Number literals"""
    n = ctx.choice('n', ctx.params['n']) + 1
    compare(ctx, bs, ctx.pick('pre', ('', 'a', 'a ', '-')) + ctx.str('t', n, '05.e+-') + ctx.pick('post', ('', ' ', 'a')))


def literals(ctx, bs):
    """Chains of number literals with their own signs, fractions and exponents, close together or apart"""
    text = ctx.pick('pre', ('', '-', '!', 'ff('))
    for i in range(ctx.choice('n', ctx.params['n']) + 1):
        if i:
            text = text + ctx.pick(f'b{i}', ('', ' ')) + oper(ctx, f'o{i}') + ctx.pick(f'c{i}', ('', ' '))
        text = text + ctx.pick(f's{i}', ('', '+', '-')) + ctx.str(f'd{i}', ctx.choice(f'k{i}', 2) + 1, '0159') + ctx.pick(f'f{i}', ('', '.5', '.', 'e1', 'e+2', '.25e-1', 'a'))
    compare(ctx, bs, text + (')' if text[:2] == 'ff' else ''))


def strings(ctx, bs):
    """Quoted strings and bracketed names"""
    q, z = ctx.pick('q', (("'", "'"), ('"', '"'), ('[', ']')))
    n = ctx.choice('n', ctx.params['n'] + 1)
    compare(ctx, bs, q + ctx.str('t', n, "'\"\\]a ") + ctx.pick('end', (z, '', z + '+b', z + 'b')))


def unicode(ctx, bs):
    """Any character in a string, in a bracketed name, or bare"""
    c = ctx.str('c', 1, ctx.params['dom'])
    form = ctx.choice('form', 4)
    if form == 0:
        compare(ctx, bs, "'" + c + "'")
    elif form == 1:
        compare(ctx, bs, '"a' + c + '"')
    elif form == 2:
        compare(ctx, bs, '[a' + c + 'b]')
    else:
        compare(ctx, bs, 'a' + c)


ASCII = ''.join(chr(i) for i in range(1, 0x7f)) + 'é\u4e2d\U0001f600'
UNI = ASCII.translate({i: None for i in range(0x1c, 0x20)}).replace('é', '').replace('\u4e2d', '')
HARNESSES = [
    Harness(ops, quick={'n': 3}, thorough={'n': 4}, bounds='n operators of two symbolic characters'),
    Harness(chain, order='random', weight=1.5, quick={'n': 5, 'again': True}, thorough={'n': 7}, bounds='<= n operators, <= 2 open parentheses'),
    Harness(nests, order='random', weight=1.5, quick={'n': 6}, thorough={'n': 9}, bounds='<= n nodes of groups, unary and binary operators and calls'),
    Harness(operands, order='random', quick={}, bounds='12 x 12 x 3 operand forms, 4 x 4 operators'),
    Harness(chars, weight=1.5, quick={'n': 5, 'alpha': 'ab1 (),!-*=.[]\''}, thorough={'n': 7}, bounds='<= n characters'),
    Harness(holes, order='random', weight=1.5, quick={'n': 4}, thorough={'n': 6}, bounds='<= n characters'),
    Harness(calls, order='random', weight=1.5, quick={'n': 4}, thorough={'n': 6}, bounds='<= n symbolic characters of 7 inside a call or group, 2 x 4 heads and 7 tails'),
    Harness(numbers, quick={'n': 5}, thorough={'n': 7}, bounds='<= n characters'),
    Harness(literals, order='random', strata=3, quick={'n': 2}, thorough={'n': 3}, bounds='<= n literals'),
    Harness(strings, quick={'n': 5}, thorough={'n': 7}, bounds='<= n characters'),
    Harness(unicode, weight=0.5, quick={'dom': UNI}, bounds='one symbolic character of ASCII and an astral one'),
]
QUICK_SECONDS = 80
