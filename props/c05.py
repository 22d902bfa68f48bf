"""C05: runtime errors are contained: only documented exceptions escape"""

import datetime
import math

from symx.harness import Harness
from props.common import gen, same, show, ref_type, host_fn, snapshot, ident, make_dt, REGEX, UUID
from props.sigs import SIGS, FAILURE, TYPES

BOUNDS = ('every operator on all pairs and every library function on <= 3 arguments drawn from 26 adversarial values (infinities, NaN, 10**400, 1e308, extreme datetimes, '
          'circular containers, unknown host types) and symbolic numbers and strings; 18 host exceptions thrown from 13 call sites; every parsed text of <= 4 / 5 symbolic characters '
          'evaluated; statement programs of <= 4 statements over adversarial values')
ASSUMPTIONS = ['resource exhaustion (memory, evaluation recursion depth of the host interpreter) is outside the bounds', 'BaseException (KeyboardInterrupt, SystemExit) is not an error to contain',
               'a logFn or fetchFn that itself misbehaves is the host\'s business (a fetchFn that raises is covered)']


def circ_list():
    x = [1.0]
    x.append(x)
    return x


def circ_obj():
    x = {'a': 1.0}
    x['b'] = x
    return x


class Opaque:
    def __repr__(self):
        return '<opaque>'


OPAQUE = Opaque()


def boom(args, options):
    raise ZeroDivisionError('boom')


CONCRETE = {
    'inf': lambda: math.inf, '-inf': lambda: -math.inf, 'nan': lambda: math.nan, 'huge': lambda: 10 ** 400, '-huge': lambda: -10 ** 400, '1e308': lambda: 1e308, '-1e308': lambda: -1e308,
    '1e22': lambda: 1e22, '-0.0': lambda: -0.0, 'dtmax': lambda: datetime.datetime.max, 'dtmin': lambda: datetime.datetime.min, 'datemax': lambda: datetime.date.max,
    'aware': lambda: datetime.datetime(2024, 1, 1, tzinfo=datetime.timezone.utc), 'awaremin': lambda: datetime.datetime.min.replace(tzinfo=datetime.timezone(datetime.timedelta(hours=5))),
    'circ': circ_list, 'circobj': circ_obj, 'opaque': lambda: OPAQUE, 'uuid': lambda: UUID, 'regex': lambda: REGEX, 'boom': lambda: boom, 'fn': lambda: host_fn,
    'surrogate': lambda: '\ud800', 'numkeys': lambda: {'a': None, 'b': math.nan}, 'mixed': lambda: [None, 'a', math.inf, circ_obj()], 'rows': lambda: [{'a': 1.0, 'b': 'x'}, {'a': None}, {}],
    'badrows': lambda: [1.0, None, 'a'],
}
SYMBOLIC = ('null', 'bool', 'int', 'float', 'str', 'list', 'obj', 'dt')
HARD = tuple(CONCRETE)


def value(ctx, name, kinds=HARD + SYMBOLIC):
    k = ctx.pick(name, kinds)
    if k in CONCRETE:
        return CONCRETE[k]()
    return gen(ctx, name + '.v', (k,), depth=1, maxlen=2, strlen=2, alpha='a1%', lo=-1, hi=3, inner=('int', 'str', 'null')) if k not in ('list', 'obj') else \
        gen(ctx, name + '.v', (k,), depth=1, maxlen=2, strlen=1, alpha='a1', lo=-1, hi=2, inner=('int', 'str', 'null'))


def is_value(v, seen=()):
    """A BareScript value all the way down"""
    if any(v is s for s in seen):
        return True
    t = ref_type(v)
    if t == 'array':
        return all(is_value(x, seen + (v,)) for x in v)
    if t == 'object':
        return all(ref_type(k) == 'string' and is_value(x, seen + (v,)) for k, x in v.items())
    return t != 'unknown'


NOTVALUE = (OPAQUE, UUID)
OPS = ('+', '-', '*', '/', '%', '**', '==', '!=', '<', '<=', '>', '>=', '&&', '||')


def operators(ctx, bs):
    """Every operator on adversarial values"""
    op = ctx.pick('op', OPS + ('!', 'neg'))
    a = value(ctx, 'a')
    b = value(ctx, 'b') if op not in ('!', 'neg') else None
    if op in ('!', 'neg'):
        expr = {'unary': {'op': '!' if op == '!' else '-', 'expr': {'variable': 'a'}}}
    else:
        expr = {'binary': {'op': op, 'left': {'variable': 'a'}, 'right': {'variable': 'b'}}}
    g = {'a': a, 'b': b}
    try:
        if ctx.flag('script'):
            res = bs.runtime.execute_script({'statements': [{'return': {'expr': expr}}]}, {'globals': g})
        else:
            res = bs.runtime.evaluate_expression(expr, {'globals': g})
    except bs.runtime.BareScriptRuntimeError:
        res = None
    ctx.reach(op)
    if op not in ('&&', '||'):
        ctx.check(ref_type(res) != 'unknown', lambda: f'{show(a)} {op} {show(b)} gives {show(res)}, which is no BareScript value')
        ta, tb = ref_type(a), ref_type(b)
        if op in ('-', '*', '/', '%', '**') and not (ta == tb == 'number' or (op == '-' and ta == tb == 'datetime')):
            ctx.check(res is None, lambda: f'{show(a)} {op} {show(b)} gives {show(res)}, expected null')


SKIP = ('dataValidate', 'systemFetch', 'mathRandom', 'datetimeNow', 'datetimeToday', 'systemGlobalSet', 'systemGlobalGet')


def library(ctx, bs):
    """Every library function on adversarial arguments: contained, null or the failure value, logged in debug mode only"""
    name = ctx.pick('fn', sorted(bs.library.SCRIPT_FUNCTIONS))
    n = ctx.choice('n', ctx.params['n'] + 1)
    kinds = HARD + SYMBOLIC
    # two sets of equal arguments
    args, args2 = [], []
    for i in range(n):
        k = ctx.pick(f'a{i}', kinds)
        a = CONCRETE[k]() if k in CONCRETE else value(ctx, f'a{i}', (k,))
        args.append(a)
        args2.append(CONCRETE[k]() if k in CONCRETE else snapshot(a))
    if name == 'arrayNewSize' and n:
        ctx.assume(not (isinstance(args[0], (int, float)) and 1000 < args[0] < math.inf))     # resource exhaustion
    debug = ctx.flag('debug')
    logs, marks = [], []
    g = {f'v{i}': a for i, a in enumerate(args)}
    g['mark'] = lambda a, o: marks.append(a)
    options = {'globals': g, 'logFn': logs.append, 'debug': debug}
    script = {'statements': [
        {'expr': {'name': 'res', 'expr': {'function': {'name': name, 'args': [{'variable': f'v{i}'} for i in range(n)]}}}},
        {'expr': {'expr': {'function': {'name': 'mark', 'args': [{'variable': 'res'}]}}}},
        {'return': {'expr': {'variable': 'res'}}}
    ]}
    err = None
    res = None
    try:
        res = bs.runtime.execute_script(script, options)
    except bs.runtime.BareScriptRuntimeError as e:
        err = e
    ctx.reach(name)
    ctx.check(err is None, lambda: f'{name}({show(args)}) raises {err}')
    ctx.check(len(marks) == 1, lambda: f'{name}({show(args)}): execution does not continue')
    if not any(any(x is y for y in NOTVALUE) for x in args):
        ctx.check(is_value(res), lambda: f'{name}({show(args)}) gives {show(res)}, which is no BareScript value')
    if name in SKIP:
        return
    # what the function itself does with equal arguments
    raised = None
    want = None
    try:
        want = bs.library.SCRIPT_FUNCTIONS[name](args2, {'globals': dict(bs.library.SCRIPT_FUNCTIONS), 'logFn': lambda m: None, 'debug': debug, 'statementCount': 0})
    except Exception as e:      # pylint: disable=broad-exception-caught
        raised = e
    failed = [m for m in logs if m.startswith('BareScript: Function "')]
    if raised is None:
        ctx.check(not [m for m in failed if f'"{name}"' in m], lambda: f'{name}({show(args)}) logs {failed}')
        return
    rv = raised.return_value if isinstance(raised, bs.value.ValueArgsError) else None
    ctx.check(same(res, rv) or (res is None and rv is None), lambda: f'{name}({show(args)}) fails but gives {show(res)}, expected {show(rv)}')
    ctx.check(bool([m for m in failed if f'"{name}"' in m]) == debug, lambda: f'{name}({show(args)}) fails: debug {debug}, log {logs}')


def good(ctx, name, kind):
    """A valid argument"""
    if kind in 'IGNPU':
        return ctx.int(name, 1, 2) if kind in 'IG' or ctx.flag(name + '.int') else ctx.num(name, 1, 2, 2)
    return {'A': [1.0, 'x'], 'O': {'a': 1.0}, 'S': 'ab', 'D': make_dt(ctx, 2024, 1, 1), 'R': REGEX, 'F': host_fn, '*': 'v'}[kind]


def arguments(ctx, bs):
    """A wrong-typed, missing, surplus, fractional or negative argument: the documented failure value, logged in debug mode only, nothing changed, execution continues"""
    name = ctx.pick('fn', sorted(SIGS))
    sig = SIGS[name]
    kinds = sig.replace('.', '')
    fixed = [k for k in kinds if k.isupper()]
    n = len(kinds) if ctx.flag('all') else len(fixed)
    args = [good(ctx, f'a{i}', k.upper()) for i, k in enumerate(kinds[:n])]
    how = ctx.pick('how', ('type', 'missing', 'surplus', 'fraction', 'negative'))
    if how == 'type':
        spots = [i for i in range(n) if kinds[i].upper() in TYPES]
        ctx.assume(len(spots) > 0)
        i = ctx.pick('spot', spots)
        k = ctx.pick('wrong', ('null', 'true', 'false', 'number', 'string', 'array', 'object', 'function', 'datetime', 'regex', 'unknown'))
        w = {'null': None, 'true': True, 'false': False, 'number': ctx.int('w', 0, 2), 'string': '1', 'array': [], 'object': {}, 'function': boom, 'datetime': make_dt(ctx, 2024, 1, 1),
             'regex': REGEX, 'unknown': UUID}[k]
        ctx.assume(ref_type(w) != TYPES[kinds[i].upper()] and (w is not None or kinds[i].isupper()))
        args[i] = w
    elif how == 'missing':
        ctx.assume(len(fixed) > 0)
        args = args[:ctx.choice('keep', len(fixed))]
    elif how == 'surplus':
        ctx.assume(sig != '' and '.' not in sig)
        args = [good(ctx, f'b{i}', k.upper()) for i, k in enumerate(kinds)] + [ctx.pick('extra', (None, 1.0, 'x'))] * (ctx.choice('more', 2) + 1)
    else:
        spots = [i for i in range(n) if kinds[i] in ('GgIi' if how == 'fraction' else 'GgPpU')]
        ctx.assume(len(spots) > 0)
        i = ctx.pick('spot', spots)
        args[i] = ctx.num('w', -1, 2, 4) if how == 'fraction' else ctx.num('w', -2, 0, 4)
        ctx.assume((args[i] != int(args[i])) if how == 'fraction' else args[i] < 0)
    before = snapshot(args)
    want = FAILURE.get(name)
    if name == 'objectGet' and len(args) > 2:
        want = args[2]
    debug = ctx.flag('debug')
    logs, marks = [], []
    g = {f'v{i}': a for i, a in enumerate(args)}
    g['mark'] = lambda a, o: marks.append(a)
    site = ctx.pick('site', ('top', 'function', 'callback', 'expression', 'argument'))
    it = {'function': {'name': name, 'args': [{'variable': f'v{i}'} for i in range(len(args))]}}
    if site == 'argument':
        body = [{'expr': {'expr': {'function': {'name': 'mark', 'args': [it]}}}}]
    else:
        body = [{'expr': {'name': 'res', 'expr': it}}, {'expr': {'expr': {'function': {'name': 'mark', 'args': [{'variable': 'res'}]}}}}]
    if site == 'function' or site == 'callback':
        call = {'name': 'ff', 'args': [{'number': 1}]} if site == 'function' else {'name': 'arrayIndexOf', 'args': [{'variable': 'one'}, {'variable': 'ff'}]}
        body = [{'function': {'name': 'ff', 'args': ['p'], 'statements': body}}, {'expr': {'expr': {'function': call}}}]
        g['one'] = [1]
    script = {'statements': body}
    err = None
    try:
        if site == 'expression':
            g.update(bs.library.SCRIPT_FUNCTIONS)
            bs.runtime.evaluate_expression({'function': {'name': 'mark', 'args': [it]}}, {'globals': g, 'logFn': logs.append, 'debug': debug}, {'p': 1} if ctx.flag('locals') else None)
        else:
            bs.runtime.execute_script(script, {'globals': g, 'logFn': logs.append, 'debug': debug})
    except bs.runtime.BareScriptRuntimeError as e:
        err = e
    ctx.reach(name)
    ctx.check(err is None and len(marks) == 1, lambda: f'{name}({show(args)}) [{how}] raises {err}')
    res = marks[0][0]
    ctx.check(same(res, want) or (name == 'objectGet' and res is None), lambda: f'{name}({show(args)}) [{how}, {site}] gives {show(res)}, documented failure value {show(want)}')
    ctx.check(ident(args, before), lambda: f'{name}({show(before)}) [{how}] changed its arguments: {show(args)}')
    ctx.check(bool([m for m in logs if m.startswith(f'BareScript: Function "{name}" failed')]) == debug, lambda: f'{name}({show(args)}) [{how}]: debug {debug}, log {logs}')


ERRORS = ('zero', 'overflow', 'type', 'key', 'value', 'stop', 'assert', 'recursion', 'args', 'attr', 'custom', 'memory', 'runtime', 'bare', 'os', 'unicode', 'parser', 'odd')


class Custom(Exception):
    pass


def thrower(bs, kind):
    def f(args, options):
        if kind == 'args':
            raise bs.value.ValueArgsError('x', 1, -7)
        if kind == 'runtime':
            raise bs.runtime.BareScriptRuntimeError('stop here')
        if kind == 'bare':
            raise KeyError()
        if kind == 'os':
            raise FileNotFoundError(2, 'No such file', 'x')
        if kind == 'unicode':
            raise UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'bad')
        if kind == 'parser':
            raise bs.parser.BareScriptParserError('bad', 'x +')
        if kind == 'odd':
            raise Custom(None, ['x'])
        raise {'zero': ZeroDivisionError, 'overflow': OverflowError, 'type': TypeError, 'key': KeyError, 'value': ValueError, 'stop': StopIteration, 'assert': AssertionError,
               'recursion': RecursionError, 'attr': AttributeError, 'custom': Custom, 'memory': MemoryError}[kind]('bad')
    return f


def hosterrors(ctx, bs):
    """A host function that fails, called from everywhere a script can call it"""
    kind = ctx.pick('kind', ERRORS)
    site = ctx.pick('site', ('statement', 'argument', 'function', 'sort', 'partial', 'filter', 'field', 'include', 'condition', 'expression', 'replace', 'ifarg', 'for'))
    logs, marks = [], []
    debug = ctx.pick('debug', (False, True, None))
    haslog = ctx.choice('log', 3)
    x = ctx.int('x', 0, 2)
    g = {'bad': thrower(bs, kind), 'mark': lambda a, o: marks.append(a[0]), 'x': x}
    options = {'globals': g, 'fetchFn': lambda r: 'res = bad(x)\n'}
    if haslog:
        options['logFn'] = logs.append if haslog == 1 else None
    if debug is not None:
        options['debug'] = debug
    text = {
        'statement': 'res = bad(x)', 'argument': 'res = arrayNew(bad(x))', 'function': 'function ff(a):\n  return bad(a)\nendfunction\nres = ff(x)',
        'sort': 'function ff(a, b):\n  bad(a)\n  return a - b\nendfunction\nres = arraySort(arrayNew(3, x, 1), ff)', 'partial': 'pp = systemPartial(bad, 1)\nres = pp(x)',
        'filter': "res = dataFilter(arrayNew(objectNew('a', x)), 'bad(a)')", 'field': "res = dataCalculatedField(arrayNew(objectNew('a', x)), 'b', 'bad(a)')",
        'include': "include 'inc.bare'", 'condition': 'if bad(x):\n  res = 1\nelse:\n  res = 2\nendif', 'expression': 'res = 1 + bad(x)',
        'replace': "res = regexReplace(regexNew('a'), 'a', bad(x))", 'ifarg': 'res = if(x > 0, bad(x), 5)', 'for': 'for v in bad(x):\n  res = 1\nendfor\nres = 3'
    }[site] + '\nmark(res)\nreturn res'
    err = None
    res = None
    try:
        res = bs.runtime.execute_script(bs.parser.parse_script(text), options)
    except bs.runtime.BareScriptRuntimeError as e:
        err = str(e)
    ctx.reach(site)
    called = site != 'ifarg' or x > 0
    if kind == 'runtime' and called:
        ctx.check(err == 'stop here', lambda: f'{site}: a runtime error of a host function gives {err!r} {show(res)}')
        return
    ctx.check(err is None, lambda: f'{site} {kind}: raises {err}')
    ctx.check(len(marks) == 1, lambda: f'{site} {kind}: execution does not continue')
    fail = -7 if kind == 'args' else None
    if site in ('statement', 'function', 'partial', 'include'):
        ctx.check(same(res, fail), lambda: f'{site} {kind}: {show(res)}, expected {show(fail)}')
    elif site == 'argument':
        ctx.check(same(res, [fail]), lambda: f'{site} {kind}: {show(res)}')
    elif site == 'condition':
        ctx.check(same(res, 1 if fail else 2), lambda: f'{site} {kind}: {show(res)}')
    elif site == 'expression':
        ctx.check(same(res, None if fail is None else -6), lambda: f'{site} {kind}: {show(res)}')
    elif site == 'ifarg':
        ctx.check(same(res, fail if called else 5), lambda: f'{site} {kind}: {show(res)}')
    elif site == 'sort':
        ctx.check(same(res, sorted([3, x, 1])), lambda: f'{site} {kind}: {show(res)}')
    elif site == 'filter':
        ctx.check(same(res, [{'a': x}] if fail else []), lambda: f'{site} {kind}: {show(res)}')
    elif site == 'field':
        ctx.check(same(res, [{'a': x, 'b': fail}]), lambda: f'{site} {kind}: {show(res)}')
    elif site == 'for':
        ctx.check(same(res, 3), lambda: f'{site} {kind}: {show(res)}')
    if called and haslog == 1:
        bad = [m for m in logs if isinstance(m, str) and m.startswith('BareScript: Function "') and ('"bad"' in m or site == 'partial')]
        ctx.check(bool(bad) == bool(debug), lambda: f'{site} {kind}: debug {debug}, log {logs}')


def texts(ctx, bs):
    """Every accepted short text evaluates or raises a documented error"""
    n = ctx.choice('n', ctx.params['n']) + 1
    text = ctx.str('t', n, 'ab01+*/%-()!<=&| .e\'')
    try:
        expr = bs.parser.parse_expression(text)
    except bs.parser.BareScriptParserError:
        return
    b = ctx.pick('b', ('str', 'null', 'inf', 'circ', 'opaque'))
    g = {'a': ctx.int('a', -1, 1), 'b': 'x' if b == 'str' else None if b == 'null' else CONCRETE[b]()}
    try:
        res = bs.runtime.evaluate_expression(expr, {'globals': g})
    except bs.runtime.BareScriptRuntimeError:
        res = None
    ctx.reach()
    ctx.check(b == 'opaque' or is_value(res), lambda: f'{show(text)} gives {show(res)}')


LEAVES = ('inf', 'nan', 'huge', 'dtmax', 'circ', 'circobj', 'opaque', 'boom', '1e308', 'regex', 'surrogate', 'int', 'str', 'null')


def programs(ctx, bs):
    """Statements and nested expressions over adversarial globals"""
    g = {n: value(ctx, n, LEAVES) for n in ('x', 'y')}

    def expr(d):
        k = ctx.pick('e', ('v', 'bin', 'un', 'call', 'lib') if d else ('v',))
        if k == 'v':
            return {'variable': ctx.pick('v', ('x', 'y', 'z'))}
        if k == 'bin':
            return {'binary': {'op': ctx.pick('o', ('+', '-', '*', '/', '%', '**', '==', '<', '&&', '||')), 'left': expr(d - 1), 'right': expr(d - 1)}}
        if k == 'un':
            return {'unary': {'op': ctx.pick('o', ('!', '-')), 'expr': expr(d - 1)}}
        if k == 'call':
            return {'function': {'name': ctx.pick('f', ('x', 'y', 'f')), 'args': [expr(d - 1)]}}
        return {'function': {'name': ctx.pick('f', ('arrayGet', 'jsonStringify', 'stringNew', 'objectKeys', 'arrayJoin', 'mathMax', 'systemCompare', 'arraySort', 'datetimeYear', 'numberToFixed', 'systemIs')),
                             'args': [expr(d - 1), expr(0)]}}
    d = ctx.params['depth']
    statements = []
    for _ in range(ctx.choice('n', ctx.params['n']) + 1):
        k = ctx.pick('s', ('set', 'expr', 'jump', 'return', 'fn', 'include'))
        if k == 'set':
            statements.append({'expr': {'name': ctx.pick('t', ('x', 'z')), 'expr': expr(d)}})
        elif k == 'expr':
            statements.append({'expr': {'expr': expr(d)}})
        elif k == 'jump':
            statements.append({'jump': {'label': ctx.pick('l', ('l', 'm')), 'expr': expr(1)}})
            if ctx.flag('haslabel'):
                statements.append({'label': 'l'})
        elif k == 'return':
            statements.append({'return': {'expr': expr(d)}})
        elif k == 'fn':
            statements.append({'function': {'name': 'f', 'args': ['x'], 'statements': [{'return': {'expr': expr(1)}}]}})
        else:
            statements.append({'include': {'includes': [{'url': 'a'}]}})
    fetch = ctx.choice('fetch', 5)

    def fetchfn(request):
        if fetch == 1:
            raise OSError('no')
        return {2: None, 3: 'z = x + y', 4: 'z = ('}[fetch]
    options = {'globals': g, 'maxStatements': 40, 'debug': True, 'logFn': lambda m: None}
    if fetch:
        options['fetchFn'] = fetchfn
    perr = False
    try:
        bs.runtime.execute_script({'statements': statements}, options)
    except bs.runtime.BareScriptRuntimeError:
        pass
    except bs.parser.BareScriptParserError:
        perr = True
    ctx.reach()
    ctx.check(not perr or (fetch == 4 and any('include' in s for s in statements)), lambda: f'parser error at run time: {statements}')


HARNESSES = [
    Harness(operators, order='random', bounds='16 operators x 34 x 34 kinds'),
    Harness(library, weight=2, order='random', quick={'n': 2}, thorough={'n': 3}, bounds='every library function, <= n arguments of 34 kinds'),
    Harness(arguments, order='random', bounds='every library function with a signature x 5 ways to be wrong x every position x 11 wrong values'),
    Harness(hosterrors, order='random', bounds='18 exceptions x 13 call sites x logging modes'),
    Harness(texts, quick={'n': 3}, thorough={'n': 5}, bounds='<= n characters'),
    Harness(programs, order='random', quick={'n': 3, 'depth': 2}, thorough={'n': 4, 'depth': 3}, bounds='<= n statements'),
]
QUICK_SECONDS = 75
