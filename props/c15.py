"""C15: array, object and string functions against list/dict/str models"""


import re

from symx.harness import Harness
from props.common import show, call, ref_type, same, gen, host_fn, is_num, ref_compare, REGEX, make_dt
from props.evalref import ref_string

BOUNDS = ('one call (quick) and histories of <= 3 (quick) / 5 (thorough) calls of every array and object function from a pool of aliased and nested containers with <= 3 '
          'elements; symbolic indices -2..len+2 in halves, as floats or integers; every string function on symbolic strings of <= 3 characters; '
          'every wrong type in every position, missing and surplus arguments; regexEscape and URL encoding of <= 3 symbolic characters')
ASSUMPTIONS = ['case mapping and white space of CPython str are taken over for the characters of the alphabet', 'containers that contain themselves are left out',
               'an empty search string or separator may fail or follow str', 'objectGet may fail with its default value']


class Fail(Exception):
    """The documented failure value"""
    def __init__(self, *values):
        super().__init__()
        self.values = values or (None,)


ANY = object()


# ---- isomorphism of heaps ------------------------------------------------------------------------------------------------

def iso(x, y, fwd, back):
    """The same value with the same sharing"""
    if isinstance(x, (list, dict)):
        if type(x) is not type(y):
            return False
        if id(x) in fwd:
            return fwd[id(x)] == id(y)
        if id(y) in back:
            return False
        fwd[id(x)] = id(y)
        back[id(y)] = id(x)
        if len(x) != len(y):
            return False
        if isinstance(x, list):
            return all(iso(p, q, fwd, back) for p, q in zip(x, y))
        return all(p == q for p, q in zip(list(x), list(y))) and all(iso(x[k], y[k], fwd, back) for k in list(x))
    if isinstance(y, (list, dict)):
        return False
    return ref_type(x) == ref_type(y) and (x is y or same(x, y))


def mirror(v, memo):
    if isinstance(v, (list, dict)):
        if id(v) not in memo:
            if isinstance(v, list):
                memo[id(v)] = w = []
                w.extend([mirror(x, memo) for x in v])
            else:
                memo[id(v)] = w = {}
                for k in v:
                    w[k] = mirror(v[k], memo)
        return memo[id(v)]
    return v


def reaches(v, target):
    if v is target:
        return True
    if isinstance(v, list):
        return any(reaches(x, target) for x in v)
    if isinstance(v, dict):
        return any(reaches(v[k], target) for k in v)
    return False


class Cycle(Exception):
    """The call would build a container that contains itself"""


def no_cycle(v, target):
    if reaches(v, target):
        raise Cycle()


# ---- reference functions -------------------------------------------------------------------------------------------------

def integral(i):
    if not is_num(i) or i != int(i):
        raise Fail()
    return int(i)


def index(i, n):
    if not is_num(i) or i != int(i) or i < 0 or i > n:
        raise Fail()
    return int(i)


def r_delete(a, i):
    i = index(i, len(a) - 1)
    a[:] = a[:i] + a[i + 1:]


def r_extend(a, b):
    for x in b:
        no_cycle(x, a)
    a[:] = a + b
    return a


def r_get(a, i):
    return a[index(i, len(a) - 1)]


def r_index_of(a, v, i=0):
    try:
        i = index(i, len(a) - 1)
    except Fail:
        raise Fail(-1)
    while i < len(a):
        if ref_compare(a[i], v) == 0:
            return i
        i += 1
    return -1


def r_last_index_of(a, v, i=None):
    if i is None:
        i = len(a) - 1
    else:
        try:
            i = index(i, len(a) - 1)
        except Fail:
            raise Fail(-1)
    while i >= 0:
        if ref_compare(a[i], v) == 0:
            return i
        i -= 1
    return -1


def r_join(a, s):
    out = ''
    for i, x in enumerate(a):
        out = out + (s if i else '') + ref_string(x)
    return out


def r_new_size(n=0, v=0):
    out = []
    for _ in range(integral(n) if n >= 0 else index(n, -1)):
        out.append(v)
    return out


def r_pop(a):
    if not a:
        raise Fail()
    v = a[len(a) - 1]
    a[:] = a[:len(a) - 1]
    return v


def r_push(a, *vs):
    for x in vs:
        no_cycle(x, a)
    a[:] = a + list(vs)
    return a


def r_set(a, i, v=None):
    i = index(i, len(a) - 1)
    no_cycle(v, a)
    a[:] = a[:i] + [v] + a[i + 1:]
    return v


def r_shift(a):
    if not a:
        raise Fail()
    v = a[0]
    a[:] = a[1:]
    return v


def r_slice(a, i=0, j=None):
    i = index(i, len(a))
    j = len(a) if j is None else index(j, len(a))
    return [a[k] for k in range(i, j)]


def r_sort(a, unused=None):
    out = []
    for x in a:
        k = len(out)
        while k > 0 and ref_compare(out[k - 1], x) > 0:
            k -= 1
        out = out[:k] + [x] + out[k:]
    a[:] = out
    return a


def r_assign(o, p):
    for k in p:
        no_cycle(p[k], o)
    for k in list(p):
        o[k] = p[k]
    return o


def r_odelete(o, k):
    if k in o:
        del o[k]


def r_oget(o, k, d=None):
    for x in o:
        if x == k:
            return o[x]
    return d


def r_ohas(o, k):
    return any(x == k for x in o)


def r_onew(*kv):
    o = {}
    for i in range(0, len(kv), 2):
        if ref_type(kv[i]) != 'string':
            raise Fail()
        o[kv[i]] = kv[i + 1] if i + 1 < len(kv) else None
    return o


def r_oset(o, k, v=None):
    no_cycle(v, o)
    o[k] = v
    return v


# name: argument kinds, documented failure value, reference
# kinds: A array, O object, K key, I index, i optional index, n optional nullable index, V value, v optional value, S string, f null, * values, + keys and values
CONTAINERS = {
    'arrayCopy': ('A', None, lambda a: [x for x in a]),
    'arrayDelete': ('AI', None, r_delete),
    'arrayExtend': ('AA', None, r_extend),
    'arrayGet': ('AI', None, r_get),
    'arrayIndexOf': ('AVi', -1, r_index_of),
    'arrayJoin': ('AS', None, r_join),
    'arrayLastIndexOf': ('AVn', -1, r_last_index_of),
    'arrayLength': ('A', 0, lambda a: len(a)),
    'arrayNew': ('*', None, lambda *vs: list(vs)),
    'arrayNewSize': ('iv', None, r_new_size),
    'arrayPop': ('A', None, r_pop),
    'arrayPush': ('A*', None, r_push),
    'arraySet': ('AIv', None, r_set),
    'arrayShift': ('A', None, r_shift),
    'arraySlice': ('Ain', None, r_slice),
    'arraySort': ('Af', None, r_sort),
    'objectAssign': ('OO', None, r_assign),
    'objectCopy': ('O', None, lambda o: {k: o[k] for k in o}),
    'objectDelete': ('OK', None, r_odelete),
    'objectGet': ('OKv', None, r_oget),
    'objectHas': ('OK', False, r_ohas),
    'objectKeys': ('O', None, lambda o: [k for k in o]),
    'objectNew': ('+', None, r_onew),
    'objectSet': ('OKv', None, r_oset),
}
C_NAMES = tuple(CONTAINERS)

ARRAYS = ('a', 'b', 'c')
OBJECTS = ('o', 'p', 'q')


def pool(ctx, small=False):
    """Pool of containers with a sharing pattern; elements are symbolic numbers and strings"""
    n = ctx.choice('na', 3 if small else 4)
    a = [ctx.int(f'a{i}', 0, 2) if i != 1 else ctx.str('a.s', 1, 'xy') for i in range(n)]
    share = ctx.choice('share', 5)
    b = [7, ctx.pick('b1', ('x', None, False)), 8][:ctx.choice('nb', 3)]
    o = {}
    for k in ctx.pick('ok', ((), ('x',), ('y', 'x'), ('x', 'y', 'z'))):
        o[k] = 'v' + k if k != 'x' else ctx.pick('ox', ('vx', None, False, 0.0))
    p = {'z': ctx.pick('pz', (1, None, ''))}
    c, q = a, o
    if share == 1:
        c, q = [a, b, a], {'x': o, 'y': a}
    elif share == 2:
        b.append(a)
        p['x'] = b
        c, q = b, p
    elif share == 3:
        c, q = list(a), dict(o)
    elif share == 4:
        p['w'] = o
        b.append(p)
        c, q = [o, p], {'k': b}
    return {'a': a, 'b': b, 'c': c, 'o': o, 'p': p, 'q': q}


def value_arg(ctx, name, vs):
    k = ctx.choice(name + '.v', 7)
    if k == 0:
        return ctx.int(name + '.i', 0, 3)
    if k == 1:
        return ctx.str(name + '.s', 1, 'xy')
    if k == 2:
        return None
    return vs[('a', 'b', 'o', 'p')[k - 3]]


def index_arg(ctx, name, n):
    """-2..n+2 in steps of a half as a float, or a host integer"""
    if ctx.flag(name + '.int'):
        return ctx.int(name + '.i', -2, n + 2)
    return ctx.num(name + '.f', -2, n + 2, 2)


def arguments(ctx, name, kinds, vs):
    """Arguments of the right kinds (the index may be out of range); trailing optional ones may be left out"""
    args = []
    last = None
    for j, k in enumerate(kinds):
        tag = f'{name}.{j}'
        if k in 'invf' and ctx.flag(tag + '.no'):
            break
        if k == 'A':
            last = vs[ctx.pick(tag, ARRAYS)]
            if not isinstance(last, list):
                raise Cycle()
            args.append(last)
        elif k == 'O':
            last = vs[ctx.pick(tag, OBJECTS)]
            if not isinstance(last, dict):
                raise Cycle()
            args.append(last)
        elif k == 'K':
            args.append(ctx.str(tag + '.k', 1, 'wxyz'))
        elif k == 'S':
            args.append(ctx.str(tag + '.s', ctx.choice(tag + '.n', 2), ';x'))
        elif k in 'Ii':
            args.append(index_arg(ctx, tag, len(last) if isinstance(last, list) else 1))
        elif k == 'n':
            args.append(None if ctx.flag(tag + '.null') else index_arg(ctx, tag, len(last)))
        elif k in 'Vv':
            args.append(value_arg(ctx, tag, vs))
        elif k == 'f':
            args.append(None)
        elif k == '*':
            for m in range(ctx.choice(tag + '.n', 3)):
                args.append(value_arg(ctx, f'{tag}.{m}', vs))
        elif k == '+':
            n = ctx.choice(tag + '.n', 5)
            for m in range(n):
                args.append(ctx.str(f'{tag}.{m}.k', 1, 'xy') if m % 2 == 0 and not ctx.flag(f'{tag}.{m}.bad') else value_arg(ctx, f'{tag}.{m}', vs))
    return args


def expected(name, args):
    kinds, fail, fn = CONTAINERS[name]
    try:
        return (fn(*args),), False
    except Fail as exc:
        return (exc.values if exc.values != (None,) else (fail,)), True


def run_call(bs, name, args, vs):
    """The call as a script statement `r = name(args)`, containers passed by variable, numbers and strings as literals"""
    g = dict(vs)
    exprs = []
    for i, a in enumerate(args):
        key = None
        for v in vs:
            if vs[v] is a and isinstance(a, (list, dict)):
                key = v
                break
        if key is not None:
            exprs.append({'variable': key})
        elif is_num(a):
            exprs.append({'number': a})
        elif isinstance(a, str):
            exprs.append({'string': a})
        elif a is None:
            exprs.append({'variable': 'null'})
        else:
            g[f'arg{i}'] = a
            exprs.append({'variable': f'arg{i}'})
    e = {'function': {'name': name, 'args': exprs} if exprs else {'name': name}}
    bs.runtime.execute_script({'statements': [{'expr': {'name': 'result', 'expr': e}}]}, {'globals': g})
    return g['result']


def step(ctx, bs, tag, vs, mirror_vs, pick, store):
    """One call on the real pool and on the mirror"""
    name = ctx.pick(tag + '.fn', pick)
    kinds = CONTAINERS[name][0]
    args = arguments(ctx, tag, kinds, vs)
    memo = {}
    pair(vs, mirror_vs, memo)
    margs = [memo.get(id(x), x) if isinstance(x, (list, dict)) else x for x in args]
    shown = mirror(args, {})
    wants, failed = expected(name, margs)
    r = run_call(bs, name, args, vs)
    what = lambda: f'{tag}: {name}({show(shown)}) = {show(r)}, expected {show(wants[0])}'     # noqa: E731
    fwd, back = {}, {}
    ok = iso([vs[k] for k in vs], [mirror_vs[k] for k in vs], fwd, back)
    ctx.check(ok, lambda: what() + f'; containers are now {show(vs)}, expected {show(mirror_vs)}')
    want = wants[0]
    ctx.check(iso(r, want, fwd, back), what)
    if not failed:
        ctx.reach('call')
    else:
        ctx.reach('failure')
    if store:
        k = ctx.pick(tag + '.to', ('-', 'a', 'b', 'o'))
        if k != '-':
            if (k == 'o') != isinstance(r, dict) or (k in 'ab') != isinstance(r, list):
                raise Cycle()
            vs[k] = r
            mirror_vs[k] = want


def pair(x, y, memo):
    """ids of the real containers -> mirrored containers"""
    if isinstance(x, list):
        if id(x) not in memo:
            memo[id(x)] = y
            for p, q in zip(x, y):
                pair(p, q, memo)
    elif isinstance(x, dict):
        if id(x) not in memo:
            memo[id(x)] = y
            for k in list(x):
                if k in y:
                    pair(x[k], y[k], memo)


def one_call(ctx, bs):
    """One call on any pool"""
    vs = pool(ctx)
    mv = mirror(vs, {})
    try:
        step(ctx, bs, 's', vs, mv, C_NAMES, False)
    except Cycle:
        ctx.assume(False)


def history(ctx, bs):
    """Several calls, results kept in variables"""
    vs = pool(ctx, True)
    mv = mirror(vs, {})
    try:
        for i in range(ctx.params['calls']):
            step(ctx, bs, f's{i}', vs, mv, C_NAMES, True)
    except Cycle:
        ctx.assume(False)


MUTATORS = ('arrayCopy', 'arraySlice', 'arrayExtend', 'arrayPush', 'arraySet', 'arrayDelete', 'arrayShift', 'arrayPop', 'arraySort', 'objectCopy', 'objectAssign', 'objectSet', 'objectDelete', 'arrayNew',
            'objectNew', 'arrayGet', 'objectGet', 'arrayNewSize', 'objectKeys')


def mutations(ctx, bs):
    """Longer histories of copies and mutations"""
    vs = pool(ctx, True)
    mv = mirror(vs, {})
    try:
        for i in range(ctx.params['calls']):
            step(ctx, bs, f's{i}', vs, mv, MUTATORS, True)
    except Cycle:
        ctx.assume(False)


def search(ctx, bs):
    """Longer arrays: searches from any index, slices, deletions"""
    n = ctx.params['n'] - ctx.choice('n', 3)
    if ctx.flag('shared'):
        # the same few values again and again
        n = ctx.choice('m', 5)
        values = ({'k': 1}, None, [3])
        a = [values[ctx.choice(f'a{i}', 3)] for i in range(n)]
    else:
        a = [ctx.int(f'a{i}', 0, 1) for i in range(n)]
    name = ctx.pick('fn', ('arrayIndexOf', 'arrayLastIndexOf', 'arraySlice', 'arrayDelete', 'arraySet', 'arrayGet', 'arrayPop', 'arrayShift', 'arrayPush', 'arrayExtend', 'arraySort', 'arrayCopy', 'arrayJoin'))
    i = ctx.int('i', 0, n + 1)
    i = float(i) if ctx.flag('float') else i
    j = ctx.int('j', 0, n + 1)
    args = {'arrayIndexOf': [a, 1, i], 'arrayLastIndexOf': [a, 1, i], 'arraySlice': [a, i, j], 'arrayDelete': [a, i], 'arraySet': [a, i, 5], 'arrayGet': [a, i], 'arrayPush': [a, 7, [8]],
            'arrayExtend': [a, a], 'arrayJoin': [a, '-']}.get(name, [a])
    if name[-7:] == 'IndexOf' and ctx.flag('noindex'):
        args = args[:2]
    vs = {'a': a}
    mv = mirror(vs, {})
    margs = [mv['a'] if x is a else x for x in args]
    wants, failed = expected(name, margs)
    shown = mirror(args, {})
    r = run_call(bs, name, args, vs)
    ctx.reach('failure' if failed else 'call')
    fwd, back = {}, {}
    ctx.check(iso([a], [mv['a']], fwd, back) and iso(r, wants[0], fwd, back), lambda: f'{name}({show(shown)}) = {show(r)}, expected {show(wants[0])}; array {show(a)}, expected {show(mv["a"])}')


def fresh(ctx, bs):
    """The same call again and again: results are the same and separate, whatever is done to the earlier ones"""
    name = ctx.pick('fn', ('arrayCopy', 'arraySlice', 'arrayNew', 'arrayNewSize', 'objectCopy', 'objectKeys', 'objectNew', 'stringSplit', 'regexSplit', 'regexMatch', 'regexMatchAll', 'jsonParse',
                           'dataFilter', 'dataParseCSV', 'schemaParse'))
    x = ctx.int('x', 0, 2)
    args = lambda: {'arrayCopy': [[x, 2]], 'arraySlice': [[x, 2], 0.0], 'arrayNew': [x, 2], 'arrayNewSize': [2.0, x], 'objectCopy': [{'a': x}], 'objectKeys': [{'a': x, 'b': 2}], 'objectNew': ['a', x],    # noqa: E731
                    'stringSplit': ['a,b', ','], 'regexSplit': [re.compile(','), 'a,b'], 'regexMatch': [re.compile('(a)'), 'a'], 'regexMatchAll': [re.compile('(a)'), 'aa'], 'jsonParse': ['[1,{"a":[2]}]'],
                    'dataFilter': [[{'a': 1.0}, {'a': 2.0}], 'a > 0'], 'dataParseCSV': ['a', '1'], 'schemaParse': ['struct A', '  int a']}[name]
    first = call(bs, name, args())
    copy = mirror(first, {})
    results = [first]
    for i in range(ctx.choice('more', 2) + 1):
        changed = ctx.flag(f'change{i}')
        if changed:
            last = results[-1]
            if isinstance(last, list):
                last.append('new')
            else:
                last['new'] = 'new'
        r = call(bs, name, args())
        ctx.check(iso(r, copy, {}, {}), lambda: f'{name}({show(args())}) gives {show(r)}, the first time {show(copy)}')
        ctx.check(not any(r is q for q in results), lambda: f'{name}({show(args())}) gives the same container again')
        results.append(r)
    ctx.reach(name)


# ---- callbacks -----------------------------------------------------------------------------------------------------------

def callbacks(ctx, bs):
    """arrayIndexOf/arrayLastIndexOf with a match function, arraySort with a compare function"""
    n = ctx.choice('n', 5)
    a = [ctx.int(f'a{i}', 0, 3) for i in range(n)]
    before = list(a)
    calls = []
    which = ctx.choice('which', 3)
    if which == 2:
        mod = ctx.int('mod', 1, 3)
        sign = ctx.pick('sign', (1, -1))
        half = ctx.pick('scale', (1, 0.5))
        boxes = [[x, -i] for i, x in enumerate(a)]
        arr = list(boxes)

        def cmp_(args, options):
            return (args[0][0] - args[1][0]) * sign * half if mod > 1 else 0
        r = call(bs, 'arraySort', [arr, cmp_])
        ctx.check(r is arr, 'arraySort does not return its array')
        want = []
        for x in boxes:
            k = len(want)
            while k > 0 and mod > 1 and (want[k - 1][0] - x[0]) * sign > 0:
                k -= 1
            want = want[:k] + [x] + want[k:]
        ctx.reach('sort')
        ctx.check(len(arr) == n and all(x is y for x, y in zip(arr, want)), lambda: f'sorting {show(boxes)} gives {show(arr)}, expected {show(want)}')
        return
    t = ctx.int('t', 0, 3)
    kind = ctx.choice('res', 4)

    def match(args, options):
        calls.append(args[0])
        hit = args[0] == t
        return (hit, [0] if hit else [], 'y' if hit else '', args[0] - t)[kind]
    i = index_arg(ctx, 'i', n) if ctx.flag('hasi') else None
    args = [a, match] + ([] if i is None else [i])
    r = call(bs, 'arrayIndexOf' if which == 0 else 'arrayLastIndexOf', args)
    valid = i is None or (i == int(i) and 0 <= i < n)
    want = -1
    seen = []
    if valid:
        order = range(0 if i is None else int(i), n) if which == 0 else range(n - 1 if i is None else int(i), -1, -1)
        for j in order:
            seen.append(a[j])
            if (a[j] != t) if kind == 3 else (a[j] == t):
                want = j
                break
    ctx.reach('search')
    ctx.check(same(r, want), lambda: f'{"arrayIndexOf" if which == 0 else "arrayLastIndexOf"}({show(a)}, == {show(t)}, {show(i)}) = {show(r)}, expected {want}')
    ctx.check(len(calls) == len(seen) and all(x is y for x, y in zip(calls, seen)) and len(a) == n and all(x is y for x, y in zip(a, before)), lambda: f'the match function saw {show(calls)}, expected {show(seen)}')


# ---- strings -------------------------------------------------------------------------------------------------------------

SALPHA = 'abA é\U0001F600'


def r_find(s, t, i):
    while i + len(t) <= len(s):
        if s[i:i + len(t)] == t:
            return i
        i += 1
    return -1


def r_sindex(s, t, i=0):
    if not is_num(i) or i != int(i) or not 0 <= i < len(s):
        raise Fail(-1)
    return r_find(s, t, int(i))


def r_slast(s, t, i=None):
    if i is None:
        i = len(s) - 1
    elif not is_num(i) or i != int(i) or not 0 <= i < len(s):
        raise Fail(-1)
    i = int(i)
    while i >= 0:
        if s[i:i + len(t)] == t:
            return i
        i -= 1
    return -1


def r_sreplace(s, t, u):
    out = ''
    i = 0
    while i < len(s):
        if s[i:i + len(t)] == t:
            out = out + u
            i += len(t)
        else:
            out = out + s[i]
            i += 1
    return out


def r_split(s, t):
    out = []
    cur = ''
    i = 0
    while i < len(s):
        if s[i:i + len(t)] == t:
            out.append(cur)
            cur = ''
            i += len(t)
        else:
            cur = cur + s[i]
            i += 1
    out.append(cur)
    return out


def r_sslice(s, i, j=None):
    i = index(i, len(s))
    j = len(s) if j is None else index(j, len(s))
    out = ''
    for k in range(i, j):
        out = out + s[k]
    return out


def r_trim(s):
    i, j = 0, len(s)
    while i < j and s[i] in ' \t\n\r\x0b\x0c\u00a0\u2003':
        i += 1
    while j > i and s[j - 1] in ' \t\n\r\x0b\x0c\u00a0\u2003':
        j -= 1
    return s[i:j]


def r_from(*codes):
    out = ''
    for c in codes:
        if ref_type(c) != 'number' or c != int(c) or c < 0 or c > 0x10ffff:
            raise Fail()
        out = out + chr(int(c))
    return out


def r_case(s, up):
    out = ''
    for c in s:
        out = out + (c.upper() if up else c.lower())
    return out


def r_repeat(s, n):
    n = integral(n)
    if n < 0:
        raise Fail()
    out = ''
    for _ in range(n):
        out = out + s
    return out


STRINGS = {
    'stringCharCodeAt': ('SI', None, lambda s, i: ord(s[index(i, len(s) - 1)])),
    'stringEndsWith': ('SS', None, lambda s, t: len(t) <= len(s) and s[len(s) - len(t):] == t),
    'stringFromCharCode': ('*', None, r_from),
    'stringIndexOf': ('SSi', -1, r_sindex),
    'stringLastIndexOf': ('SSn', -1, r_slast),
    'stringLength': ('S', 0, lambda s: len(s)),
    'stringLower': ('S', None, lambda s: r_case(s, False)),
    'stringNew': ('v', None, lambda v=None: ref_string(v)),
    'stringRepeat': ('SI', None, r_repeat),
    'stringReplace': ('SSS', None, r_sreplace),
    'stringSlice': ('SIn', None, r_sslice),
    'stringSplit': ('SS', None, r_split),
    'stringStartsWith': ('SS', None, lambda s, t: s[:len(t)] == t),
    'stringTrim': ('S', None, r_trim),
    'stringUpper': ('S', None, lambda s: r_case(s, True)),
}


def judge(ctx, bs, name, args, fn, fail):
    """The call gives what the reference gives"""
    try:
        wants = (fn(*args),)
        ctx.reach('call')
    except Fail as exc:
        wants = exc.values if exc.values != (None,) else (fail,)
        ctx.reach('failure')
    r = run_call(bs, name, args, {})
    ctx.check(same(r, wants[0]), lambda: f'{name}({show(args)}) = {show(r)}, expected {show(wants[0])}')


def strings(ctx, bs):
    """Every string function on symbolic strings and indices"""
    name = ctx.pick('fn', tuple(STRINGS))
    kinds, fail, fn = STRINGS[name]
    args = []
    for j, k in enumerate(kinds):
        if k in 'inv' and ctx.flag(f'{j}.no'):
            break
        if k == 'S':
            n = ctx.choice(f'{j}.n', (ctx.params['n'] if j == 0 else 2) + 1)
            if j == 1 and n == 0 and name in ('stringSplit', 'stringReplace', 'stringLastIndexOf'):
                return
            args.append(ctx.str(f'{j}.s', n, SALPHA if name not in ('stringReplace', 'stringSplit', 'stringIndexOf', 'stringLastIndexOf') else 'ab'))
        elif k in 'Ii':
            args.append(index_arg(ctx, f'{j}', len(args[0])))
        elif k == 'n':
            args.append(None if ctx.flag(f'{j}.null') else index_arg(ctx, f'{j}', len(args[0])))
        elif k == 'v':
            args.append(gen(ctx, 'v', kinds=('null', 'bool', 'int', 'float', 'str', 'list', 'fn')))
        elif k == '*':
            for m in range(ctx.choice('cn', 3)):
                w = ctx.choice(f'c{m}.w', 3)
                args.append(ctx.int(f'c{m}', -1, 130) if w == 0 else ctx.num(f'c{m}f', -1, 2, 2) if w == 1 else float(ctx.pick(f'c{m}b', (0x10ffff, 0x110000, 0x1f600, 0xd7ff, 0xe9, 4294967296, 1e300))))
    judge(ctx, bs, name, args, fn, fail)


def long_strings(ctx, bs):
    """Positions in longer strings, and longer search strings"""
    n = ctx.params['n'] - ctx.choice('n', 4)
    name = ctx.pick('fn', ('stringSlice', 'stringCharCodeAt', 'stringIndexOf', 'stringLastIndexOf', 'stringRepeat', 'stringReplace', 'stringSplit', 'stringStartsWith', 'stringEndsWith', 'stringLength'))
    if name in ('stringSlice', 'stringCharCodeAt'):
        s = 'abcdefghijklmn\U0001F600opq'[-n:]
        args = [s, index_arg(ctx, 'i', n)] + ([index_arg(ctx, 'j', n)] if name == 'stringSlice' and ctx.flag('j') else [])
    elif name == 'stringRepeat':
        args = [ctx.str('s', ctx.choice('k', 3), 'ab'), index_arg(ctx, 'i', 6)]
    else:
        args = [ctx.str('s', n, 'ab')]
        if name != 'stringLength':
            args.append(ctx.str('t', ctx.choice('k', 4) + 1, 'ab'))
        if name == 'stringReplace':
            args.append(ctx.pick('new', ('', 'a', 'ba', 'c', '$1', '\\1', '$&')))
        elif name in ('stringIndexOf', 'stringLastIndexOf') and ctx.flag('i'):
            args.append(index_arg(ctx, 'i', n))
    judge(ctx, bs, name, args, STRINGS[name][2], STRINGS[name][1])


def words(ctx, bs):
    """Trimming and case of white space and of letters that change their length"""
    n = ctx.choice('n', 4)
    if ctx.flag('trim'):
        judge(ctx, bs, 'stringTrim', [ctx.str('s', n, ' \t\n\r\u00a0\u2003a_0\x00')], r_trim, None)
        return
    s = ctx.str('s', n, 'aZzé\u00dfÄ\u0130\U00010400\U00010428\u01c6 1')
    up = ctx.flag('up')
    judge(ctx, bs, 'stringUpper' if up else 'stringLower', [s], lambda s: r_case(s, up), None)


# ---- failures ------------------------------------------------------------------------------------------------------------

EVERY = dict(CONTAINERS, **STRINGS)
EVERY['regexEscape'] = ('S', None, None)
EVERY['urlEncode'] = ('S', None, None)
EVERY['urlEncodeComponent'] = ('S', None, None)
OK_TYPES = {'A': ('array',), 'O': ('object',), 'K': ('string',), 'S': ('string',), 'I': ('number',), 'i': ('number',), 'n': ('number', 'null'), 'f': ('function', 'null')}


def wrong_value(ctx, kind):
    k = ctx.pick('wrong', ('null', 'true', 'false', 'number', 'string', 'array', 'object', 'function', 'datetime', 'regex'))
    if k in ('true', 'false'):
        v = k == 'true'
        k = 'boolean'
    else:
        v = {'null': None, 'number': ctx.num('wn', 0, 1, 1), 'string': '0', 'array': [1], 'object': {'0': 1}, 'function': host_fn, 'datetime': make_dt(ctx, 2024, 1, 1), 'regex': REGEX}[k]
    ctx.assume(k not in OK_TYPES[kind])
    return v


def failures(ctx, bs):
    """A wrong type, a missing or a surplus argument: failure value, nothing changed"""
    name = ctx.pick('fn', tuple(EVERY))
    kinds, fail, _ = EVERY[name]
    a, o, s = [3.0, 'x', [1]], {'x': 1, 'y': [2]}, 'abc'
    x = ctx.num('x', 0, 2, 1)
    args = []
    for k in kinds:
        if k not in '*+':
            args.append({'A': a, 'O': o, 'K': 'x', 'S': s, 'I': x, 'i': x, 'n': x, 'V': 'x', 'v': 'x', 'f': None}[k])
    variadic = '*' in kinds or '+' in kinds
    how = ctx.choice('how', 3)
    if how == 0:
        spots = [j for j, k in enumerate(kinds) if k in OK_TYPES]
        ctx.assume(len(spots) > 0)
        j = spots[ctx.choice('spot', len(spots))]
        args[j] = wrong_value(ctx, kinds[j])
        if ctx.flag('cut'):
            ctx.assume(all(k in 'invf' for k in kinds[j + 1:]))
            args = args[:j + 1]
    elif how == 1:
        need = [j for j, k in enumerate(kinds) if k in 'AOKSI']
        ctx.assume(len(need) > 0)
        args = args[:need[ctx.choice('spot', len(need))]]
    else:
        ctx.assume(not variadic)
        for j in range(ctx.choice('more', 2) + 1):
            args.append(value_arg(ctx, f'm{j}', {'a': a, 'b': [1], 'o': o, 'p': {}}))
    before = mirror([a, o, args], {})
    r = call(bs, name, list(args))
    ctx.reach('failure')
    if name == 'objectGet':
        ctx.check(r is None or (len(args) > 2 and same(r, args[2])), lambda: f'{name}({show(args)}) = {show(r)}')
    else:
        ctx.check(same(r, fail), lambda: f'{name}({show(args)}) = {show(r)}, documented failure value {show(fail)}')
    ctx.check(iso([a, o, args], before, {}, {}), lambda: f'{name} failed but changed its arguments: {show([a, o, args])}, before {show(before)}')


def odd_values(ctx, bs):
    """stringFromCharCode and objectNew with wrong values in any position"""
    n = ctx.choice('n', 4) + 1
    j = ctx.choice('j', n)
    bad = ctx.pick('bad', (None, True, False, 'a', '1', [65], {}, host_fn))
    if ctx.flag('chars'):
        args = [65.0 + i for i in range(n)]
        args[j] = bad
        r = call(bs, 'stringFromCharCode', list(args))
        ctx.check(r is None, lambda: f'stringFromCharCode({show(args)}) = {show(r)}')
    else:
        args = ['k' if i % 2 == 0 else i for i in range(n)]
        ctx.assume(j % 2 == 0 and ref_type(bad) != 'string')
        args[j] = bad
        r = call(bs, 'objectNew', list(args))
        ctx.check(r is None, lambda: f'objectNew({show(args)}) = {show(r)}')
    ctx.reach('failure')


# ---- regexEscape, URL encoding -------------------------------------------------------------------------------------------

META = '.^$*+?{}[]\\|()#&~- \n\t/<>=!:_a0\u00e9\U0001F600"\''


def escape(ctx, bs):
    """regexEscape(s) matches s and no near string"""
    s = ctx.str('s', ctx.choice('n', ctx.params['n'] + 1), META)
    t = ctx.str('t', ctx.choice('m', 3), META) if ctx.flag('free') else s
    if t is s and ctx.flag('near'):
        way = ctx.choice('way', 4)
        k = ctx.choice('k', len(s)) if len(s) else 0
        t = s[:k] + s[k + 1:] if way == 0 else s[:k] + 'a' + s[k + 1:] if way == 1 else s[:k] + 'a' + s[k:] if way == 2 else s + s[k:k + 1]
    e = call(bs, 'regexEscape', [s])
    ctx.check(ref_type(e) == 'string', lambda: f'regexEscape({show(s)}) = {show(e)}')
    flags = ctx.pick('flags', (None, '', 'm', 's'))
    rx = call(bs, 'regexNew', ['^' + e + '$'] + ([] if flags is None else [flags]))
    ctx.check(ref_type(rx) == 'regex', lambda: f'regexNew of the escape {show(e)} of {show(s)} fails')
    m = call(bs, 'regexMatch', [rx, 'Q' + t + 'Q'])
    ctx.check(m is None or flags == 'm', lambda: f'{show(e)} (anchored) matches inside {show(t)}')
    free = call(bs, 'regexNew', [e])
    hit = call(bs, 'regexMatch', [free, t])
    want = r_find(t, s, 0)
    ctx.reach('match' if want >= 0 else 'no match')
    ctx.check((hit is not None) == (want >= 0), lambda: f'the escape {show(e)} of {show(s)} on {show(t)}: {show(hit)}')
    if hit is not None:
        ctx.check(hit['index'] == want and hit['groups']['0'] == s, lambda: f'the escape {show(e)} of {show(s)} on {show(t)} matches {show(hit)}')
    # in a larger pattern
    both = call(bs, 'regexMatch', [call(bs, 'regexNew', ['(' + e + ')b']), t + 'b'])
    ctx.check((both is not None) == (r_find(t + 'b', s + 'b', 0) >= 0), lambda: f'({show(e)})b on {show(t)}b: {show(both)}')


# pattern, with the groups of the match at i of t: (end, groups) or None
def m_letters(t, i):
    c = t[i] if i < len(t) else ''
    if c == 'a' or c == 'b' or c == 'c':
        return i + 1, {'0': c, '1': c if c == 'a' else None, '2': c if c == 'b' else None}
    return None


def m_named(t, i):
    c = t[i] if i < len(t) else ''
    if c == 'a' or c == 'b':
        one, two = (c, None) if c == 'a' else (None, c)
        return i + 1, {'0': c, '1': one, 'one': one, '2': two, 'two': two}
    return None


def m_optional(t, i):
    if i < len(t) and t[i] == 'a':
        g = 'b' if i + 1 < len(t) and t[i + 1] == 'b' else None
        return i + (1 if g is None else 2), {'0': 'a' if g is None else 'ab', '1': g}
    return None


def m_run(t, i):
    j = i
    while j < len(t) and t[j] == 'a':
        j += 1
    if j > i:
        return j, {'0': t[i:j], '1': t[i:j]}
    return None


REGEXES = (('(a)|(b)|c', m_letters), ('(?<one>a)|(?<two>b)', m_named), ('a(b)?', m_optional), ('(a+)', m_run))


def regexes(ctx, bs):
    """Matches of some patterns with groups on any text, in order"""
    t = ctx.str('t', ctx.choice('n', ctx.params['n'] + 1), 'abcx')
    pattern, at = ctx.pick('pattern', REGEXES)
    rx = call(bs, 'regexNew', [pattern] + ([ctx.pick('flagtext', ('', 'i', 'ms'))] if ctx.flag('flags') else []))
    ctx.check(ref_type(rx) == 'regex', lambda: f'regexNew({show(pattern)}) = {show(rx)}')
    want = []
    i = 0
    while i <= len(t):
        m = at(t, i)
        if m is None:
            i += 1
            continue
        want.append((i, m[0], m[1]))
        i = m[0]

    def is_match(m, w):
        return (ref_type(m) == 'object' and set(m) == {'index', 'input', 'groups'} and ref_type(m['index']) == 'number' and m['index'] == w[0] and m['input'] == t
                and set(m['groups']) == set(w[2]) and all(same(m['groups'][k], v) for k, v in w[2].items()))
    way = ctx.choice('way', 3)
    if way == 0:
        r = call(bs, 'regexMatch', [rx, t])
        ctx.reach('match' if want else 'none')
        ctx.check(is_match(r, want[0]) if want else r is None, lambda: f'{show(pattern)} on {show(t)}: {show(r)}, expected {show(want[:1])}')
    elif way == 1:
        r = call(bs, 'regexMatchAll', [rx, t])
        ctx.reach('all')
        ctx.check(ref_type(r) == 'array' and len(r) == len(want) and all(is_match(m, w) for m, w in zip(r, want)), lambda: f'every {show(pattern)} on {show(t)}: {show(r)}, expected {show(want)}')
    else:
        new = ctx.pick('new', ('', '-', 'aa'))
        r = call(bs, 'regexReplace', [rx, t, new])
        out = ''
        k = 0
        for i, j, _ in want:
            out = out + t[k:i] + new
            k = j
        out = out + t[k:]
        ctx.reach('replace')
        ctx.check(ref_type(r) == 'string' and r == out, lambda: f'replacing {show(pattern)} in {show(t)} by {show(new)}: {show(r)}, expected {show(out)}')


HEXD = '0123456789ABCDEF'


def percent_decode(t):
    """Percent-decoded UTF-8; None when malformed"""
    out = ''
    data = []
    i = 0
    while i <= len(t):
        c = t[i] if i < len(t) else ''
        if c == '%':
            h = [HEXD.find(x.upper()) for x in t[i + 1:i + 3]]
            if len(h) != 2 or h[0] < 0 or h[1] < 0:
                return None
            data.append(h[0] * 16 + h[1])
            i += 3
            continue
        if data:
            try:
                out = out + bytes(data).decode('utf-8')
            except UnicodeDecodeError:
                return None
            data = []
        out = out + c
        i += 1
    return out


URLCHARS = tuple(range(0, 0x80)) + (0xe9, 0x20ac, 0x800, 0xffff, 0x10000, 0x1f600)
UNRESERVED = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~'
RESERVED = ":/?#[]@!$&'()*+,;="


def url(ctx, bs):
    """URL encoding decodes to the text; only URL characters; a component has no delimiter left"""
    n = ctx.choice('n', ctx.params['n'] + 1)
    s = ''
    for i in range(n):
        s = s + ctx.str(f's{i}', 1, URLCHARS if i == 0 else ctx.params['alpha'])
    comp = ctx.flag('component')
    t = call(bs, 'urlEncodeComponent' if comp else 'urlEncode', [s])
    ctx.check(ref_type(t) == 'string', lambda: f'encoding {show(s)} gives {show(t)}')
    ctx.reach('component' if comp else 'url')
    back = percent_decode(t)
    ctx.check(back is not None and back == s, lambda: f'{show(s)} encodes to {show(t)}, which decodes to {show(back)}')
    for c in t:
        ctx.check(c in UNRESERVED or c == '%' or c in RESERVED, lambda: f'{show(s)} encodes to {show(t)}: {show(c)} is no URL character')
        if comp:
            ctx.check(c not in ':/?#[]@&=+,;$', lambda: f'component {show(s)} encodes to {show(t)}')


HARNESSES = [
    Harness(one_call, weight=2, order='random', strata=4, bounds='24 functions, 5 sharing patterns, arrays <= 4, index -2..len+2 in halves'),
    Harness(history, weight=2, order='random', strata=4, quick={'calls': 3}, thorough={'calls': 5}, bounds='histories of the given number of calls, results kept'),
    Harness(mutations, weight=1, order='random', strata=4, quick={'calls': 5}, thorough={'calls': 8}, bounds='longer histories of mutators'),
    Harness(search, order='random', quick={'n': 6}, thorough={'n': 9}, bounds='13 functions on arrays of n-2..n bits'),
    Harness(fresh, bounds='15 functions called 2-3 times'),
    Harness(callbacks, order='random', bounds='arrays <= 4, match/compare functions'),
    Harness(strings, weight=2, order='random', strata=3, quick={'n': 3}, thorough={'n': 5}, bounds='15 functions on symbolic strings'),
    Harness(long_strings, order='random', strata=3, quick={'n': 6}, thorough={'n': 10}, bounds='10 functions, strings of n-3..n characters'),
    Harness(words, order='random', quick={}, bounds='<= 3 characters'),
    Harness(failures, weight=1, order='random', strata=3, bounds='42 functions, every position, 10 wrong types; missing; 1-2 surplus'),
    Harness(odd_values, bounds='<= 4 values'),
    Harness(escape, weight=1, order='random', strata=2, quick={'n': 2}, thorough={'n': 3}, bounds='<= n characters of 40 against <= 3 characters'),
    Harness(regexes, weight=0.7, order='random', quick={'n': 4}, thorough={'n': 6}, bounds='4 patterns with groups, texts <= n of 4 characters'),
    Harness(url, quick={'n': 2, 'alpha': 'a /%+&\u20ac'}, thorough={'n': 3, 'alpha': 'a /%+&?#\n\u20ac\U0001F600'}, bounds='every ASCII character and 6 others, then <= n-1 of 7'),
]
QUICK_SECONDS = 75
