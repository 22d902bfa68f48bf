"""C11: value comparison is a total preorder and every consumer agrees with it"""


from symx.harness import Harness
from props.common import make_dt, gen, ref_compare, ref_type, show, call, binop

BOUNDS = ('pairs: all 13 host types, arrays <= 2 and objects <= 2 keys of scalars; triples over scalars and arrays <= 1; sorts <= 4 elements, '
          'dataSort <= 3 rows and 2 keys; numbers in [-2, 2] on a 1/4 grid as int and float; strings <= 2 over 8 code points')
ASSUMPTIONS = ['datetime arithmetic of the host is modelled exactly on microseconds; time zone UTC', 'NaN excluded (by the property)']


def relops(ctx, bs):
    """value_compare, systemCompare and the six operators on one pair against the documented order"""
    p = ctx.params
    a = gen(ctx, 'a', depth=p['depth'])
    b = gen(ctx, 'b', depth=p['depth'])
    r = bs.value.value_compare(a, b)
    e = ref_compare(a, b)
    ctx.reach()
    ctx.check(r == e, lambda: f'value_compare({show(a)}, {show(b)}) = {show(r)}, expected {e}')
    back = bs.value.value_compare(b, a)
    ctx.check(back == -e, lambda: f'value_compare({show(b)}, {show(a)}) = {show(back)}, expected {-e}')
    sc = call(bs, 'systemCompare', [a, b])
    ctx.check(sc == e, lambda: f'systemCompare({show(a)}, {show(b)}) = {show(sc)}, expected {e}')
    for op, want in (('==', e == 0), ('!=', e != 0), ('<', e < 0), ('<=', e <= 0), ('>', e > 0), ('>=', e >= 0)):
        got = binop(bs, op, a, b)
        ctx.check(got is want, lambda: f'{show(a)} {op} {show(b)} = {show(got)}, compare says {e}')


def axioms(ctx, bs):
    """Reflexivity, antisymmetry, transitivity straight on the implementation (no reference order)"""
    kinds = ('null', 'bool', 'int', 'float', 'str', 'dt', 'date', 'fn', 'regex', 'unknown', 'list', 'obj')
    vals = [gen(ctx, n, kinds, depth=1, maxlen=1, strlen=1, alpha='abB', lo=-1, hi=1, inner=('null', 'int', 'str', 'bool')) for n in 'abc']
    a, b, c = vals
    cmp = bs.value.value_compare
    ab, bc, ac = cmp(a, b), cmp(b, c), cmp(a, c)
    ctx.reach()
    ctx.check(cmp(a, a) == 0, lambda: f'{show(a)} not equal to itself')
    ctx.check(cmp(b, a) == -ab, lambda: f'not antisymmetric: {show(a)} {show(b)}')
    if ab <= 0 and bc <= 0:
        ctx.check(ac <= 0 and (ac != 0 or (ab == 0 and bc == 0)), lambda: f'not transitive: {show(vals)}: {ab} {bc} {ac}')


def deep(ctx, bs):
    """Nested containers (depth 2) against the documented order"""
    kinds = ('list', 'obj', 'null', 'int')
    a = gen(ctx, 'a', kinds, depth=2, maxlen=2, lo=0, hi=1, inner=('list', 'obj', 'int', 'null'))
    b = gen(ctx, 'b', kinds, depth=2, maxlen=2, lo=0, hi=1, inner=('list', 'obj', 'int', 'null'))
    r = bs.value.value_compare(a, b)
    ctx.reach()
    ctx.check(r == ref_compare(a, b), lambda: f'value_compare({show(a)}, {show(b)}) = {show(r)}')


def wide(ctx, bs):
    """Longer arrays and objects with more keys, in any insertion order"""
    def array(name):
        n = ctx.choice(name + '.n', ctx.params['n'] + 1)
        j = ctx.choice(name + '.j', n + 1)
        return [ctx.int(f'{name}.{i}', 0, 1) if i != j else ctx.pick(name + '.x', (None, 'a', 1.0, [], [0])) for i in range(n)]

    def obj(name):
        ks = ctx.pick(name + '.ks', ORDERS) if not ctx.flag(name + '.pair') else ctx.str(name + '.k', 1, 'abcd') + ctx.pick(name + '.last', 'abcd')
        vals = {k: ctx.int(f'{name}.{k}', 0, 1) for k in 'abcd'}
        return {k: vals[k] for k in ks}
    kind = ctx.choice('kind', 4)
    a, b = (array('a'), array('b')) if kind == 0 else (obj('a'), obj('b')) if kind == 1 else ([0, array('a')], [0, array('b')]) if kind == 2 else ({'k': obj('a')}, {'k': obj('b')})
    r, back, e = bs.value.value_compare(a, b), bs.value.value_compare(b, a), ref_compare(a, b)
    ctx.reach(('array', 'object', 'nested array', 'nested object')[kind])
    ctx.check(r == e, lambda: f'value_compare({show(a)}, {show(b)}) = {show(r)}, expected {e}')
    ctx.check(back == -e, lambda: f'value_compare({show(b)}, {show(a)}) = {show(back)}, expected {-e}')


ORDERS = ('a', 'b', 'ab', 'ba', 'abc', 'acb', 'bac', 'bca', 'cab', 'cba', 'abd', 'dba', 'abcd', 'dcba', 'badc', 'cdab')


def near(ctx, bs):
    """Numbers and datetimes that are almost equal, large and small"""
    def number(name):
        how = ctx.choice(name + '.how', 5)
        k = ctx.int(name, -2, 2)
        if how == 0:
            return base + k * ctx.pick('eps', (2.0 ** -10, 2.0 ** -30, 2.0 ** -45))
        if how == 1:
            return k * 2.0 ** -ctx.pick(name + '.e', (20, 40, 60, 100))
        if how == 2:
            return 2 ** 53 + k
        if how == 3:
            return float(2 ** 52 + k)
        return 10 ** 17 + k
    base = ctx.int('base', -1, 1)
    if ctx.flag('dt'):
        us = ctx.pick('unit', (1, 1000, 1000000))
        a, b = make_dt(ctx, 2024, 2, 29, 23, 59, 59, ctx.int('p', 0, 3) * us % 1000000), make_dt(ctx, 2024, 2, 29, 23, 59, 59, ctx.int('q', 0, 3) * us % 1000000)
    else:
        a, b = number('a'), number('b')
    wrap = ctx.choice('wrap', 3)
    if wrap:
        a, b = ([a], [b]) if wrap == 1 else ({'k': a, 'l': 1}, {'k': b, 'l': 0})
    r, back, e = bs.value.value_compare(a, b), bs.value.value_compare(b, a), ref_compare(a, b)
    ctx.reach('end')
    ctx.check(r == e and back == -e, lambda: f'value_compare({show(a)}, {show(b)}) = {show(r)} and {show(back)}, expected {e}')
    for op, want in (('==', e == 0), ('<', e < 0), ('>=', e >= 0)):
        got = binop(bs, op, a, b)
        ctx.check(got is want, lambda: f'{show(a)} {op} {show(b)} = {show(got)}, compare says {e}')


def spelling(ctx, bs):
    """int and float spelling of one number compare alike with everything"""
    n = ctx.int('n', -3, 3)
    other = gen(ctx, 'b', depth=1, maxlen=1, strlen=1)
    wrap = ctx.choice('wrap', 3)
    i, f = n, float(n)
    if wrap == 1:
        i, f = [n], [float(n)]
    elif wrap == 2:
        i, f = {'a': n}, {'a': float(n)}
    ctx.reach()
    ctx.check(bs.value.value_compare(i, other) == bs.value.value_compare(f, other), lambda: f'{show(i)} and {show(f)} differ against {show(other)}')
    ctx.check(bs.value.value_compare(other, i) == bs.value.value_compare(other, f), lambda: f'{show(i)} and {show(f)} differ against {show(other)}')
    ctx.check(bs.value.value_compare(i, f) == 0, lambda: f'{show(i)} differs from {show(f)}')


SORTK = ('null', 'int', 'float', 'str', 'bool', 'dt', 'list')


def _permutation(a, b):
    """b holds the objects of a, each as often"""
    left = list(b)
    for x in a:
        for i, y in enumerate(left):
            if y is x:
                del left[i]
                break
        else:
            return False
    return not left


def sort(ctx, bs):
    """arraySort (default and with systemCompare as compareFn): an ordered permutation, in place"""
    n = ctx.choice('n', ctx.params['n'] + 1)
    arr = [gen(ctx, f'x{i}', SORTK, depth=1, maxlen=1, strlen=1, alpha='ab', lo=-1, hi=1, inner=('int',)) for i in range(n)]
    orig = list(arr)
    how = ctx.choice('how', 5)
    if how > 1:
        # another order: descending, none, by type only
        compare = bs.library.SCRIPT_FUNCTIONS['systemCompare']
        key = lambda x: {'null': 0, 'number': 1, 'string': 2}.get(ref_type(x), 3)     # noqa: E731
        order = (lambda x, y: -ref_compare(x, y), lambda x, y: 0, lambda x, y: key(x) - key(y))[how - 2]
        fn = (lambda args, options: -compare(args, options), lambda args, options: 0, lambda args, options: float(key(args[0]) - key(args[1])))[how - 2]
        want = []
        for x in arr:
            k = len(want)
            while k > 0 and order(want[k - 1], x) > 0:
                k -= 1
            want = want[:k] + [x] + want[k:]
        res = call(bs, 'arraySort', [arr, fn])
        ctx.reach('order')
        ctx.check(res is arr and len(arr) == len(want) and all(x is y for x, y in zip(arr, want)), lambda: f'sorting {show(orig)} by another order gives {show(arr)}, expected {show(want)}')
        return
    if how:
        res = call(bs, 'arraySort', [arr, bs.library.SCRIPT_FUNCTIONS['systemCompare']])
    else:
        res = call(bs, 'arraySort', [arr])
    ctx.reach()
    ctx.check(res is arr, 'arraySort does not return its array')
    ctx.check(_permutation(orig, arr), lambda: f'not a permutation: {show(orig)} -> {show(arr)}')
    for x, y in zip(arr, arr[1:]):
        ctx.check(ref_compare(x, y) <= 0, lambda: f'not ordered: {show(arr)}')
    # stable: equal elements keep their order
    for x, y in zip(arr, arr[1:]):
        if ref_compare(x, y) == 0 and x is not y:
            ix = [i for i, v in enumerate(orig) if v is x]
            iy = [i for i, v in enumerate(orig) if v is y]
            if len(ix) == 1 and len(iy) == 1:
                ctx.check(ix[0] < iy[0], lambda: f'equal elements reordered: {show(orig)} -> {show(arr)}')


def minmax(ctx, bs):
    """mathMin / mathMax return a least / greatest argument"""
    n = 1 + ctx.choice('n', ctx.params['n'])
    arr = [gen(ctx, f'x{i}', SORTK, depth=1, maxlen=1, strlen=1, alpha='ab', lo=-1, hi=1, inner=('int',)) for i in range(n)]
    lo = call(bs, 'mathMin', list(arr))
    hi = call(bs, 'mathMax', list(arr))
    ctx.reach()
    ctx.check(any(lo is x for x in arr), lambda: f'mathMin{show(arr)} = {show(lo)}')
    ctx.check(any(hi is x for x in arr), lambda: f'mathMax{show(arr)} = {show(hi)}')
    for x in arr:
        ctx.check(ref_compare(lo, x) <= 0, lambda: f'mathMin{show(arr)} = {show(lo)}')
        ctx.check(ref_compare(hi, x) >= 0, lambda: f'mathMax{show(arr)} = {show(hi)}')


def indexof(ctx, bs):
    """arrayIndexOf / arrayLastIndexOf find the first / last equal element"""
    kinds = ('null', 'bool', 'int', 'float', 'str', 'dt', 'date', 'regex', 'list', 'obj')
    long_ = ctx.flag('long')
    n = ctx.choice('n', 4) if not long_ else 7
    if long_:
        kinds = ('int',)
    arr = [gen(ctx, f'x{i}', kinds, depth=1, maxlen=1, strlen=1, alpha='ab', lo=-1, hi=1, inner=('int',)) for i in range(n)]
    v = gen(ctx, 'v', kinds, depth=1, maxlen=1, strlen=1, alpha='ab', lo=-1, hi=1, inner=('int',))
    hits = [i for i, x in enumerate(arr) if ref_compare(x, v) == 0]
    a = call(bs, 'arrayIndexOf', [arr, v])
    b = call(bs, 'arrayLastIndexOf', [arr, v])
    ctx.reach()
    ctx.check(a == (hits[0] if hits else -1), lambda: f'arrayIndexOf({show(arr)}, {show(v)}) = {show(a)}')
    ctx.check(b == (hits[-1] if hits else -1), lambda: f'arrayLastIndexOf({show(arr)}, {show(v)}) = {show(b)}')
    start = ctx.choice('start', 4 if not long_ else 8)
    if start < n:
        a = call(bs, 'arrayIndexOf', [arr, v, float(start)])
        b = call(bs, 'arrayLastIndexOf', [arr, v, float(start)])
        up = [i for i in hits if i >= start]
        down = [i for i in hits if i <= start]
        ctx.check(a == (up[0] if up else -1), lambda: f'arrayIndexOf({show(arr)}, {show(v)}, {start}) = {show(a)}')
        ctx.check(b == (down[-1] if down else -1), lambda: f'arrayLastIndexOf({show(arr)}, {show(v)}, {start}) = {show(b)}')


def datasort(ctx, bs):
    """dataSort orders rows by the keys in turn, missing fields as null, descending reversed, stably"""
    n = 2 + ctx.choice('n', 2)
    nk = 1 + ctx.choice('nk', 2)
    desc = [ctx.pick(f'd{i}', (None, True, False)) for i in range(nk)]
    rows = []
    for i in range(n):
        row = {'id': i}
        for k in range(nk):
            if not (k == 0 and ctx.flag(f'miss{i}')):
                row['ab'[k]] = gen(ctx, f'r{i}{k}', ('null', 'float', 'str', 'dt', 'bool') if k == 0 else ('float', 'null'), depth=0, strlen=1, alpha='ab', lo=-1, hi=1)
        rows.append(row)
    sorts = [['ab'[k]] if desc[k] is None else ['ab'[k], desc[k]] for k in range(nk)]
    orig = list(rows)
    res = call(bs, 'dataSort', [rows, sorts])
    ctx.reach()
    ctx.check(isinstance(res, list) and _permutation(orig, res), lambda: f'dataSort is not a permutation: {show(orig)} {show(res)}')

    def order(x, y):
        for k in range(nk):
            r = ref_compare(x.get('ab'[k]), y.get('ab'[k]))
            if r != 0:
                return -r if desc[k] else r
        return 0
    for x, y in zip(res, res[1:]):
        r = order(x, y)
        ctx.check(r < 0 or (r == 0 and x['id'] < y['id']), lambda: f'dataSort {sorts}: {show(orig)} -> {show(res)}')


HARNESSES = [
    Harness(relops, weight=2, quick={'depth': 1}, order='random', bounds='pairs of every type, depth 1'),
    Harness(axioms, weight=2, order='random', bounds='triples, scalars and containers of one element'),
    Harness(deep, weight=1, order='random', bounds='pairs of nested containers, depth 2'),
    Harness(wide, order='random', quick={'n': 4}, thorough={'n': 6}, bounds='arrays <= n, objects of <= 4 keys in 16 insertion orders'),
    Harness(near, order='random', bounds='differences down to 2^-100, integers beyond 2^53, microseconds'),
    Harness(spelling, bounds='n in [-3, 3], against any value of depth 1'),
    Harness(sort, weight=2, order='random', quick={'n': 3}, thorough={'n': 4}, bounds='arrays <= n'),
    Harness(minmax, quick={'n': 3}, thorough={'n': 4}, order='random', bounds='<= n arguments'),
    Harness(indexof, order='random', bounds='arrays <= 3, every start'),
    Harness(datasort, order='random', bounds='<= 3 rows, <= 2 keys'),
]
QUICK_SECONDS = 75
