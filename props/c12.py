"""C12: one number type: the int and the float spelling of a number are interchangeable"""

from symx.harness import Harness
from props.common import gen, same, show, ref_type, call, binop, unop, REGEX, make_dt

BOUNDS = ('every library function but clock, random and fetch, with 0-5 arguments of its own kinds or of any other kind; integers symbolic in -3..20 plus up to +-999999999999999; containers of '
          '<= 2 elements; every operator; literals, for-indexes and results chained into a second call')
ASSUMPTIONS = ['function results are compared by being functions', 'repetition counts and array sizes up to 20']

# letters: a array, A array of numbers, o object, s string, n small integer, N any integer, x any value, b boolean, f function, d datetime, r regex, D data rows, K field names, S sorts, G aggregation,
# e row expression, t number text, j JSON text, y schema types, w pattern text
SIGS = {
    'arrayCopy': 'A', 'arrayDelete': 'An', 'arrayExtend': 'AA', 'arrayGet': 'An', 'arrayIndexOf': 'Axn', 'arrayJoin': 'As', 'arrayLastIndexOf': 'Axn', 'arrayLength': 'A', 'arrayNew': 'NNx',
    'arrayNewSize': 'nN', 'arrayPop': 'A', 'arrayPush': 'ANx', 'arraySet': 'AnN', 'arrayShift': 'A', 'arraySlice': 'Ann', 'arraySort': 'Af', 'dataAggregate': 'DG', 'dataCalculatedField': 'Dse0',
    'dataFilter': 'De0', 'dataJoin': 'DDe', 'dataSort': 'DS', 'dataTop': 'DnK', 'dataValidate': 'Db', 'datetimeDay': 'd', 'datetimeHour': 'd', 'datetimeISOFormat': 'db', 'datetimeISOParse': 's',
    'datetimeMillisecond': 'd', 'datetimeMinute': 'd', 'datetimeMonth': 'd', 'datetimeNew': 'Ymnhzz', 'datetimeSecond': 'd', 'datetimeYear': 'd', 'jsonParse': 'j', 'jsonStringify': 'Xn',
    'mathAbs': 'N', 'mathAcos': 'n', 'mathAsin': 'n', 'mathAtan': 'n', 'mathAtan2': 'nn', 'mathCeil': 'N', 'mathCos': 'n', 'mathFloor': 'N', 'mathLn': 'n', 'mathLog': 'nn', 'mathMax': 'NNN',
    'mathMin': 'NNN', 'mathPi': '', 'mathRound': 'Nn', 'mathSign': 'N', 'mathSin': 'n', 'mathSqrt': 'n', 'mathTan': 'n', 'numberParseInt': 'tn', 'numberParseFloat': 't', 'numberToFixed': 'Nnb',
    'objectAssign': 'oo', 'objectCopy': 'o', 'objectDelete': 'os', 'objectGet': 'osN', 'objectHas': 'os', 'objectKeys': 'o', 'objectNew': 'sNsN', 'objectSet': 'osN', 'regexEscape': 's',
    'regexMatch': 'rs', 'regexMatchAll': 'rs', 'regexNew': 'ws', 'regexReplace': 'rss', 'regexSplit': 'rs', 'schemaParse': 's', 'schemaValidate': 'yyN', 'stringCharCodeAt': 'sn',
    'stringEndsWith': 'ss', 'stringFromCharCode': 'cc', 'stringIndexOf': 'ssn', 'stringLastIndexOf': 'ssn', 'stringLength': 's', 'stringLower': 's', 'stringNew': 'X', 'stringRepeat': 'sn',
    'stringReplace': 'sss', 'stringSlice': 'snn', 'stringSplit': 'ss', 'stringStartsWith': 'ss', 'stringTrim': 's', 'stringUpper': 's', 'systemBoolean': 'X', 'systemCompare': 'XX',
    'systemGlobalGet': 'sN', 'systemGlobalSet': 'sN', 'systemIs': 'XX', 'systemLog': 'X', 'systemLogDebug': 'X', 'systemPartial': 'fN', 'systemType': 'X', 'urlEncode': 's', 'urlEncodeComponent': 's'
}
SKIPPED = ('datetimeNow', 'datetimeToday', 'mathRandom', 'systemFetch')
BIG = (999999999999999, -999999999999999, 100000000000000, 2 ** 40, 1440, 127)
ANY = ('int', 'null', 'bool', 'str', 'list', 'obj', 'fn', 'dt', 'regex')


def cmp_fn(args, options):
    return args[1] - args[0] if isinstance(args[0], (int, float)) and isinstance(args[1], (int, float)) else 0


def number(ctx, name):
    if ctx.flag(name + '.big'):
        return ctx.pick(name + '.B', BIG)
    return ctx.int(name, -3, 20)


def arg(ctx, name, k):
    if k == 'n':
        return ctx.int(name, -2, 6)
    if k == 'N':
        return number(ctx, name)
    if k == 'A':
        return [ctx.int(f'{name}.{i}', -1, 3) for i in range(ctx.choice(name + '.len', 4))]
    if k == 's':
        return ctx.str(name, ctx.choice(name + '.len', 3), 'ab')
    if k == 'o':
        return {key: ctx.int(f'{name}.{key}', 0, 3) for key in ctx.pick(name + '.keys', ((), ('a',), ('b', 'a')))}
    if k == 'b':
        return gen(ctx, name, ('bool', 'int'), lo=0, hi=1)
    if k == 'f':
        return cmp_fn
    if k == 'd':
        return make_dt(ctx, 2024, ctx.int(name + '.mo', 1, 12), 5, 6, 7, 8, 9000)
    if k == 'r':
        return REGEX
    if k == 'D':
        return [{'a': ctx.int(f'{name}.{i}a', 0, 1), 'b': ctx.int(f'{name}.{i}b', -1, 2)} for i in range(ctx.choice(name + '.len', 4))]
    if k == 'K':
        return ctx.pick(name, (['a'], ['b', 'a'], []))
    if k == 'S':
        return ctx.pick(name, ([['a']], [['a', True], ['b']], [['b', 1]], [['b', 0], ['a', 1]]))
    if k == 'G':
        return {'categories': ['a'], 'measures': [{'field': 'b', 'function': ctx.pick(name, ('sum', 'average', 'count', 'max', 'min', 'stddev'))}]} if ctx.flag(name + '.cat') else \
            {'measures': [{'field': 'b', 'function': 'sum', 'name': 'c'}]}
    if k == 'e':
        return ctx.pick(name, ('a', 'a + b', 'a == b', "a + 'x'", 'arrayGet(arrayNew(5, 6), a)'))
    if k == 't':
        return ctx.pick(name, ('12', '1010', 'ff', '-3.5', '1e3', 'zz', '7.'))
    if k == 'j':
        return ctx.pick(name, ('[1, 2.0]', '{"a": 1}', '12', 'x'))
    if k == 'y':
        return ctx.pick(name, ({'T': {'typedef': {'name': 'T', 'type': {'builtin': 'int'}, 'attr': {'gte': 1}}}}, {'T': {'typedef': {'name': 'T', 'type': {'array': {'type': {'builtin': 'float'}}}}}}, 'T'))
    if k == 'w':
        return 'a'
    if k == 'c':
        return ctx.int(name, 60, 70) if ctx.flag(name + '.k') else ctx.pick(name + '.B', (0, 1114111, 1114112, 55296, -1))
    if k == 'Y':
        return ctx.int(name, 2020, 2024)
    if k == 'm':
        return ctx.int(name, -2, 15)
    if k == 'h':
        return ctx.int(name, -25, 30)
    if k == 'z':
        return ctx.int(name, -70, 130) if ctx.flag(name + '.k') else ctx.pick(name + '.B', (0, 999, 100000))
    if k == 'X':
        return gen(ctx, name, ('int', 'list', 'obj', 'str', 'null'), depth=2, maxlen=2, strlen=1, alpha='ab', lo=-1, hi=12, inner=('int', 'list'))
    if k == '0':
        return {'q': ctx.int(name, 0, 3)}
    return gen(ctx, name, ANY, depth=1, maxlen=2, strlen=1, alpha='ab', lo=-1, hi=3, inner=('int', 'null'))


def respell(ctx, v, mixed):
    """A copy with (some) integers as floats"""
    if isinstance(v, list):
        return [respell(ctx, x, mixed) for x in v]
    if isinstance(v, dict):
        return {k: respell(ctx, x, mixed) for k, x in v.items()}
    if isinstance(v, int) and not isinstance(v, bool):
        return v if mixed and ctx.flag('keep') else float(v)
    return v


def agree(a, b):
    """The same value, functions by being functions"""
    ta, tb = ref_type(a), ref_type(b)
    if ta != tb:
        return False
    if ta == 'function':
        return True
    if ta == 'array':
        return len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    if ta == 'object':
        return list(a) == list(b) and all(agree(a[k], b[k]) for k in a)
    return same(a, b)


def library(ctx, bs):
    """Every function on both spellings"""
    names = [n for n in sorted(bs.library.SCRIPT_FUNCTIONS) if n not in SKIPPED]
    name = ctx.pick('f', names)
    sig = SIGS.get(name, 'xx')
    drop = ctx.pick('n', (0, 1, 2, -1))
    count = max(0, len(sig) - drop)
    odd = ctx.choice('odd', count + 1) - 1
    args = [arg(ctx, f'v{i}', 'x' if i == odd or i >= len(sig) else sig[i]) for i in range(count)]
    # sizes stay small
    if name in ('arrayNewSize', 'stringRepeat', 'jsonStringify'):
        for a in args:
            ctx.assume(not isinstance(a, int) or a <= 20)
    mixed = ctx.flag('mixed')
    args2 = [respell(ctx, a, mixed) for a in args]
    logs1, logs2 = [], []
    r1 = call(bs, name, args, {'logFn': logs1.append, 'debug': True})
    r2 = call(bs, name, args2, {'logFn': logs2.append, 'debug': True})
    ctx.reach(name)
    ctx.check(agree(r1, r2), lambda: f'{name}({show(args)}): integers give {show(r1)}, floats {show(args2)} give {show(r2)}')
    ctx.check(agree(args, args2), lambda: f'{name}: arguments afterwards {show(args)} with integers, {show(args2)} with floats')
    ctx.check(logs1 == logs2 or name not in ('systemLog', 'systemLogDebug'), lambda: f'{name}({show(args)}): logs {show(logs1)} and {show(logs2)}')


def positions(ctx, bs):
    """Index, count, size, radix and digit positions with well-typed arguments only"""
    name = ctx.pick('f', [n for n in sorted(SIGS) if any(c in SIGS[n] for c in 'nmhzYc')])
    sig = SIGS[name]
    count = len(sig) - ctx.choice('n', 2)
    args = [arg(ctx, f'v{i}', sig[i]) for i in range(count)]
    args2 = [respell(ctx, a, False) for a in args]
    r1 = call(bs, name, args)
    r2 = call(bs, name, args2)
    ctx.reach(name)
    ctx.check(agree(r1, r2), lambda: f'{name}({show(args)}): integers give {show(r1)}, floats {show(r2)}')
    ctx.check(agree(args, args2), lambda: f'{name}: arguments afterwards {show(args)} with integers, {show(args2)} with floats')


def tables(ctx, bs):
    """Data functions on longer tables with repeated values"""
    n = ctx.choice('rows', 5) + 1
    data = [{'a': ctx.int(f'{i}a', 0, 1), 'b': ctx.int(f'{i}b', -1, 2), 'c': i} for i in range(n)]
    name = ctx.pick('f', ('dataAggregate', 'dataTop', 'dataSort', 'dataFilter', 'dataJoin', 'dataCalculatedField', 'dataValidate'))
    if name == 'dataAggregate':
        measures = [{'field': ctx.pick('field', ('b', 'a', 'c')), 'function': ctx.pick('fn', ('sum', 'average', 'count', 'max', 'min', 'stddev')), 'name': 'm'}]
        args = [data, {'categories': [ctx.pick('cat', ('a', 'b'))], 'measures': measures} if ctx.flag('cat') else {'measures': measures}]
    elif name == 'dataTop':
        args = [data, ctx.int('n', 0, 3)] + ([[ctx.pick('cat', ('a', 'b'))]] if ctx.flag('cat') else [])
    elif name == 'dataSort':
        args = [data, ctx.pick('sort', ([['a']], [['b', True], ['a']], [['a', True], ['c', True]]))]
    elif name == 'dataJoin':
        args = [data, [{'a': ctx.int(f'{i}r', -1, 2), 'd': ctx.int(f'{i}d', 0, 1)} for i in range(ctx.choice('right', 3))], ctx.pick('on', ('a', 'b', 'a + b', "a + 'x'"))]
    elif name == 'dataValidate':
        args = [data]
    else:
        expr = ctx.pick('expr', ('a + b', 'a == b', 'b % 2', 'a * k', "a + '-' + b", 'if(b, a, c)', 'max(a, b, k)', 'round(b / 2)', "len(a + '')"))
        args = [data, expr] if name == 'dataFilter' else [data, 'e', expr]
        args.append({'k': ctx.int('k', 0, 2)})
    mixed = ctx.flag('mixed')
    args2 = [respell(ctx, a, mixed) for a in args]
    r1, r2 = call(bs, name, args), call(bs, name, args2)
    ctx.reach(name)
    ctx.check(agree(r1, r2), lambda: f'{name}({show(args)}): integers give {show(r1)}, floats {show(args2)} give {show(r2)}')
    ctx.check(agree(args, args2), lambda: f'{name}: arguments afterwards {show(args)} with integers, {show(args2)} with floats')
    if r1 is not None and ref_type(r1) == 'array':
        t1, t2 = call(bs, 'jsonStringify', [r1]), call(bs, 'jsonStringify', [r2])
        ctx.check(t1 == t2, lambda: f'{name}({show(args)}): as text {show(t1)} and {show(t2)}')


def operators(ctx, bs):
    """Every operator on both spellings"""
    op = ctx.pick('op', ('**', '*', '/', '%', '+', '-', '<=', '<', '>=', '>', '==', '!=', '&&', '||', 'neg', 'not'))
    a = arg(ctx, 'a', ctx.pick('ka', 'NXxd'))
    if op in ('**',):
        a = arg(ctx, 'a2', 'n')
    b = arg(ctx, 'b', 'n' if op == '**' else ctx.pick('kb', 'nNXx'))
    mixed = ctx.flag('mixed')
    a2, b2 = respell(ctx, a, mixed), respell(ctx, b, mixed)
    if op in ('neg', 'not'):
        r1, r2 = unop(bs, '-' if op == 'neg' else '!', a), unop(bs, '-' if op == 'neg' else '!', a2)
    else:
        r1, r2 = binop(bs, op, a, b), binop(bs, op, a2, b2)
    ctx.reach(op)
    ctx.check(agree(r1, r2), lambda: f'{show(a)} {op} {show(b)} = {show(r1)}, {show(a2)} {op} {show(b2)} = {show(r2)}')


PRODUCE = ('{n}', 'arrayLength({A})', 'stringLength({s})', 'arrayIndexOf({A}, 1)', '{n} + 0', '{n} * 1', 'mathAbs({n})', 'numberParseInt("2")', 'numberParseFloat("2")', 'mathFloor({n} / 1)', 'mathRound({n})',
           '{n} % 5', 'arrayGet({A}, 0)', 'jsonParse("2")', 'jsonParse("2.0")', '{n} / 1', '2 ** {n}', 'stringIndexOf("abc", "c")', 'mathMax({n}, 0)', 'datetimeMonth(datetimeNew(2020, 3, 1))')
CONSUME = ('arrayGet(arrayNew(5, 6, 7, 8), {p})', 'arraySlice(arrayNew(5, 6, 7, 8), {p})', 'arrayNewSize({p}, 1)', 'stringRepeat("ab", {p})', 'stringCharCodeAt("abcd", {p})', 'stringSlice("abcd", {p})',
           'numberToFixed(3.14159, {p})', 'mathRound(3.14159, {p})', 'stringNew({p})', '"" + {p}', 'jsonStringify(arrayNew({p}))', 'jsonStringify(arrayNew(1), {p})', 'numberParseInt("11", {p})',
           'stringFromCharCode({p} + 65)', 'arrayIndexOf(arrayNew(1, 2, 3), {p})', 'arrayJoin(arrayNew({p}, {p}), "-")', 'datetimeNew(2020, {p}, 1)', 'arraySet(arrayNew(1, 2, 3, 4), {p}, 0)',
           'stringLastIndexOf("aaaa", "a", {p})', 'dataTop(arrayNew(objectNew("a", 1), objectNew("a", 2)), {p})', 'systemType({p})', 'arrayDelete(arrayNew(1, 2, 3), {p})')


def chained(ctx, bs):
    """A number that one call produced is used by another: the same as the number written as a literal"""
    prod = ctx.pick('p', PRODUCE)
    cons = ctx.pick('c', CONSUME)
    n = ctx.int('n', 0, 4)
    a = [ctx.int(f'a{i}', 0, 3) for i in range(ctx.choice('an', 4))]
    s = ctx.str('s', ctx.choice('sn', 3), 'xy')
    g = {'n': n, 'A': a, 's': s}
    fill = {'{n}': 'n', '{A}': 'A', '{s}': 's'}
    text = prod
    for k, v in fill.items():
        text = text.replace(k, v)
    src = bs.parser.parse_script(f'p = {text}\nreturn ' + cons.replace('{p}', 'p'))
    r1 = bs.runtime.execute_script(src, {'globals': dict(g)})
    p = bs.runtime.execute_script(bs.parser.parse_script(f'return {text}'), {'globals': dict(g)})
    if ref_type(p) != 'number':
        ctx.reach('no number')
        return
    src2 = bs.parser.parse_script('return ' + cons.replace('{p}', 'p'))
    r2 = bs.runtime.execute_script(src2, {'globals': dict(g, p=float(p))})
    r3 = bs.runtime.execute_script(src2, {'globals': dict(g, p=int(p))}) if p == int(p) else r2
    ctx.reach()
    ctx.check(agree(r1, r2) and agree(r1, r3), lambda: f'p = {text} (n={show(n)} A={show(a)}) then {cons}: {show(r1)}; with the float {show(r2)}, with the int {show(r3)}')


def loop_index(ctx, bs):
    """The index of a for loop (seeded with an int) as an argument"""
    cons = ctx.pick('c', CONSUME)
    n = ctx.choice('n', 3) + 1
    arr = [ctx.int(f'a{i}', 0, 9) for i in range(n)]
    src = bs.parser.parse_script('r = arrayNew()\nfor v, p in A:\n    arrayPush(r, ' + cons.replace('{p}', 'p') + ')\nendfor\nreturn r')
    r = bs.runtime.execute_script(src, {'globals': {'A': arr}})
    want = []
    for i in range(n):
        e = bs.parser.parse_expression(cons.replace('{p}', str(i)))
        want.append(bs.runtime.evaluate_expression(e, {'globals': dict(bs.library.SCRIPT_FUNCTIONS)}, None, False))
    ctx.reach()
    ctx.check(agree(r, want), lambda: f'{cons} for p = 0..{n - 1} in a loop: {show(r)}, with literals {show(want)}')


HARNESSES = [
    Harness(library, weight=2.5, order='random', strata=1, bounds='every function, arguments of its kinds or any'),
    Harness(positions, order='random', strata=1, bounds='every function with an index, count, size or date part'),
    Harness(tables, order='random', strata=1, bounds='7 data functions, <= 5 rows'),
    Harness(operators, order='random', strata=1, bounds='16 operators'),
    Harness(chained, order='random', strata=2, bounds='20 producers x 22 consumers'),
    Harness(loop_index, weight=0.5, bounds='22 consumers, <= 3 iterations'),
]
QUICK_SECONDS = 75
