"""C13: numbers survive conversion to text and back; integers print without a fraction"""

import math

from symx.harness import Harness
from props.common import show, call, ref_type

BOUNDS = ('doubles of 1..15 symbolic significant digits, both signs, decimal exponents -25..25 and +-250; 17-digit, subnormal, extreme and power-of-ten doubles by '
          'their bit pattern choices; symbolic integers up to 10^15; parser texts of <= 4 (quick) / 5 (thorough) symbolic characters, every radix 2..36')
ASSUMPTIONS = ['repr and float of CPython are exact on decimals of <= 15 significant digits (shortest round-trip text)', 'integral doubles from 1e16 on print in exponent form',
               'underscores, surrounding white space, 0x/0o/0b prefixes and non-ASCII digits in parsed text are left open']


def texts(ctx, bs, x, logs):
    """The texts of x by the named way"""
    way = ctx.pick('way', ('concat', 'concat2', 'stringNew', 'join', 'log', 'json'))
    if way == 'concat':
        r = bs.runtime.evaluate_expression({'binary': {'op': '+', 'left': {'string': ''}, 'right': {'variable': 'x'}}}, {'globals': {'x': x}})
    elif way == 'concat2':
        r = bs.runtime.evaluate_expression({'binary': {'op': '+', 'left': {'variable': 'x'}, 'right': {'string': ''}}}, {'globals': {'x': x}})
    elif way == 'stringNew':
        r = call(bs, 'stringNew', [x])
    elif way == 'join':
        sep = ctx.flag('two')
        r = call(bs, 'arrayJoin', [[x, x] if sep else [x], ';'])
        if sep:
            k = r.find(';')
            ctx.check(k > 0 and r[:k] == r[k + 1:], lambda: f'arrayJoin([x, x]) gives {show(r)}')
            r = r[:k]
    elif way == 'log':
        call(bs, 'systemLog', [x], {'logFn': logs.append})
        r = logs[0]
    else:
        r = call(bs, 'jsonStringify', [x])
    return way, r


def round_trip(ctx, bs, x, what):
    way, t = texts(ctx, bs, x, [])
    ctx.reach(way)
    ctx.check(isinstance(t, str), lambda: f'{what} by {way} gives {show(t)}')
    back = call(bs, 'numberParseFloat', [t])
    ctx.check(ref_type(back) == 'number' and back == x, lambda: f'{what} by {way} is {show(t)}, parsed back {show(back)}')
    if x >= 0 and t[:1] != '-':
        e = None
        try:
            e = bs.parser.parse_expression(t)
        except bs.parser.BareScriptParserError:
            pass
        ctx.check(e is not None and 'number' in e and e['number'] == x, lambda: f'{what} by {way} is {show(t)}, as a literal {show(e)}')
    if x.is_integer() and 'e' not in t:
        ctx.check('.' not in t, lambda: f'integral {what} prints {show(t)}')
    if '.' in t and 'e' not in t:
        ctx.check(t[-1] != '0' and t[-1] != '.', lambda: f'{what} prints {show(t)}')
    return t


EXPS = (0, 1, 2, 5, 6, 9, 10, 12, 14, 15, 16, 17, 21, 25, 250, -1, -2, -3, -4, -5, -6, -7, -10, -20, -25, -250)


def digits(ctx, bs):
    """Doubles of symbolic digits"""
    from symx import dec
    nd = ctx.choice('nd', ctx.params['nd']) + 1
    neg = ctx.flag('neg')
    exp = ctx.pick('exp', EXPS) - (nd if ctx.flag('shift') else 0)
    x = dec.decimal(ctx, 'x', neg, nd, exp)
    t = round_trip(ctx, bs, x, show_lazy(neg, nd, exp))
    # the same number entered as text gives the same text again
    y = call(bs, 'numberParseFloat', [t])
    t2 = call(bs, 'stringNew', [y])
    ctx.check(ref_type(t2) == 'string' and call(bs, 'numberParseFloat', [t2]) == x, lambda: f'second trip gives {show(t2)}')


def show_lazy(neg, nd, exp):
    return f'a number of {nd} digits times 1e{exp}' + (', negative' if neg else '')


SPECIAL = (0.0, 5e-324, 2.2250738585072014e-308, 2.225073858507201e-308, 1.7976931348623157e+308, 9007199254740991.0, 9007199254740992.0, 9007199254740994.0, 1e15, 1e16, 1e17, 1e21, 1e22, 1e23, 1e100, 1e-5,
           1e-4, 0.1, 0.30000000000000004, 1 / 3, 123456789012345680.0, 999999999999999.9, 9999999999999998.0, 1.5e16, 1e-7, 1.5e-7, 4.35, 0.000001, 100.0, 1000000.0, 1e20, 2.0 ** 70, 2.0 ** -30, 1e-320, 1.0, 10.0)


def special(ctx, bs):
    """Extreme and long doubles"""
    x = ctx.pick('x', SPECIAL)
    k = ctx.choice('ulp', 5) - 2
    for _ in range(abs(k)):
        x = math.nextafter(x, math.inf if k > 0 else -math.inf)
    if ctx.flag('neg'):
        x = -x
    if math.isinf(x):
        return
    round_trip(ctx, bs, x, repr(x))


def powers(ctx, bs):
    """Mantissas times powers of two and of ten, over the whole range"""
    m = ctx.pick('m', (1.0, 1.5, 1.1, 1.9999999999999998, 1.2345678901234567))
    if ctx.flag('ten'):
        e = ctx.choice('e', 309) if ctx.flag('pos') else -ctx.choice('e', 321)
        x = float(f'{m!r}e{e}')
    else:
        e = ctx.choice('e', 1024) if ctx.flag('pos') else -ctx.choice('e', 1074)
        x = math.ldexp(m, e)
    if math.isinf(x):
        return
    round_trip(ctx, bs, x, repr(x))


def integers(ctx, bs):
    """Symbolic host integers and the same as floats"""
    n = ctx.int('n', -12, 120) if ctx.flag('small') else ctx.pick('N', (10 ** 15, -(10 ** 15), 999999999999999, 2 ** 53, 1000000, 1230000))
    x = float(n) if ctx.flag('float') else n
    t = round_trip(ctx, bs, x, show(x))
    ctx.check(t == str(int(n)), lambda: f'{show(n)} prints {show(t)}')


def is_plain(t):
    """A decimal number text: optional sign, digits with optional point, optional exponent"""
    i = 0
    n = len(t)
    if i < n and t[i] in '+-':
        i += 1
    d = 0
    while i < n and t[i] in '0123456789':
        i += 1
        d += 1
    if i < n and t[i] == '.':
        i += 1
        while i < n and t[i] in '0123456789':
            i += 1
            d += 1
    if d == 0:
        return False
    if i < n and t[i] in 'eE':
        i += 1
        if i < n and t[i] in '+-':
            i += 1
        k = i
        while i < n and t[i] in '0123456789':
            i += 1
        if i == k:
            return False
    return i == n


def is_open(t):
    """Texts on which the property is left open"""
    return '_' in t or t.strip() != t or any(ord(c) > 127 for c in t)


def parse_float(ctx, bs):
    """numberParseFloat of any short text"""
    n = ctx.choice('n', ctx.params['n'] + 1)
    if ctx.flag('words'):
        t = ctx.pick('w', ('nan', 'NaN', 'inf', '-inf', 'Infinity', '-infinity', '+nan', 'infin', '1e400', '-1e999', '1e+400', '9' * 400, '0x10', '1,000', '١', '1e', 'e1', '1.2.3', '--1', '1-', '12px', ' ', 'null', 'true',
                          '1d', '1f', '0b1', '1e5.5', '.', '+', '-.', 'infinity1'))
        if ctx.flag('suffix'):
            t = t + ctx.str('s', 1, '1.e-x')
    else:
        t = ctx.str('t', n, '01.eE+-xnaif_ ')
    r = call(bs, 'numberParseFloat', [t])
    if is_open(t):
        ctx.reach('open')
        ctx.check(r is None or math.isfinite(r), lambda: f'numberParseFloat({show(t)}) = {show(r)}')
        return
    if is_plain(t):
        want = float(t)
        ctx.reach('number')
        if math.isinf(want):
            ctx.check(r is None, lambda: f'numberParseFloat({show(t)}) = {show(r)}, expected null')
        else:
            ctx.check(r is not None and r == want, lambda: f'numberParseFloat({show(t)}) = {show(r)}, expected {show(want)}')
    else:
        ctx.reach('no number')
        ctx.check(r is None, lambda: f'numberParseFloat({show(t)}) = {show(r)}, expected null')


DIG = '0123456789abcdefghijklmnopqrstuvwxyz'


def ref_int(t, radix):
    i = 0
    neg = False
    if t[:1] in ('+', '-'):
        neg = t[:1] == '-'
        i = 1
    if i == len(t):
        return None
    v = 0
    for c in t[i:]:
        k = DIG.find(c.lower())
        if k < 0 or k >= radix:
            return None
        v = v * radix + k
    return -v if neg else v


def parse_int(ctx, bs):
    """numberParseInt of any short text with every radix"""
    n = ctx.choice('n', ctx.params['n'])
    t = ctx.str('t', n, '019aAzZ+-.xb')
    args = [t]
    radix = 10
    if ctx.flag('radix'):
        radix = ctx.int('r', 2, 36)
        args.append(float(radix) if ctx.flag('float') else radix)
    r = call(bs, 'numberParseInt', args)
    low = t.lower()
    if (low[:2] in ('0x', '0b') or low[1:3] in ('0x', '0b')):
        ctx.reach('open')
        ctx.check(r is None or r == math.floor(r), lambda: f'numberParseInt({show(t)}, {show(radix)}) = {show(r)}')
        return
    want = ref_int(t, radix)
    ctx.reach('number' if want is not None else 'no number')
    ctx.check((r is None) == (want is None) and (want is None or r == want), lambda: f'numberParseInt({show(t)}, {show(radix)}) = {show(r)}, expected {show(want)}')


def literal(ctx, bs):
    """Literals in source give the number that parsing the text gives, and print back to it"""
    n = ctx.choice('n', ctx.params['n']) + 1
    t = ctx.str('t', n, '0129.') + ctx.pick('e', ('', 'e+2', 'e-3', 'e+15', 'e-7', 'e+22', '.5', '.25e+1', '5', '0'))
    e = None
    try:
        e = bs.parser.parse_expression(t)
    except bs.parser.BareScriptParserError:
        ctx.reach('rejected')
        return
    ctx.check('number' in e, lambda: f'{show(t)} parses to {show(e)}')
    back = call(bs, 'numberParseFloat', [t])
    ctx.reach('literal')
    ctx.check(back is not None and back == e['number'], lambda: f'literal {show(t)} is {show(e["number"])}, numberParseFloat gives {show(back)}')
    r = call(bs, 'stringNew', [e['number']])
    again = call(bs, 'numberParseFloat', [r])
    ctx.check(again is not None and again == back, lambda: f'literal {show(t)} prints {show(r)}, parsed back {show(again)}')


HARNESSES = [
    Harness(digits, weight=2, order='random', strata=3, quick={'nd': 15}, bounds='1..nd symbolic digits, 26 exponents, 6 ways to text'),
    Harness(special, order='random', bounds='36 doubles, +-2 ulps, both signs'),
    Harness(powers, order='random', bounds='5 mantissas, every power of ten and of two'),
    Harness(integers, order='random', bounds='-12..120 and 6 large integers'),
    Harness(parse_float, weight=1.5, order='random', strata=2, quick={'n': 4}, thorough={'n': 5}, bounds='<= n characters over 14 symbols, 32 words'),
    Harness(parse_int, order='random', strata=2, quick={'n': 4}, thorough={'n': 5}, bounds='< n characters over 12 symbols, radix 2..36'),
    Harness(literal, quick={'n': 3}, thorough={'n': 5}, bounds='<= n symbolic characters and 10 endings'),
]
QUICK_SECONDS = 75
