"""C03: expression evaluation follows the typed operator semantics"""

import datetime

from symx.harness import Harness
from props.common import gen, same, show, unop, binop, snapshot, ident, ref_type, ALL
from props.evalref import ref_binop, ref_unop, ref_eval, SKIP, NegZero, ALIASES

BOUNDS = ('every operator on every pair of the 13 host types (containers <= 2 elements of scalars; numbers in [-3, 3] on a 1/4 grid, as int and float); '
          'trees of <= 9 nodes with <= 4 effectful host calls; every expression-mode built-in on <= 3 arguments of 8 types')
ASSUMPTIONS = ['time zone UTC', 'datetime - datetime is compared when the difference is a whole number of milliseconds', 'huge, infinite and NaN operands belong to C05',
               'datetimeNow, datetimeToday and mathRandom: type of the result only']

OPS = ('+', '-', '*', '/', '%', '**', '==', '!=', '<', '<=', '>', '>=', '&&', '||')


def binary(ctx, bs):
    """Every binary operator on every pair of types"""
    op = ctx.pick('op', OPS)
    p = ctx.params
    a = gen(ctx, 'a', ALL, depth=1, maxlen=1, strlen=1, alpha='a0', lo=-p['m'], hi=p['m'], inner=('int', 'str', 'null', 'bool'))
    b = gen(ctx, 'b', ALL, depth=1, maxlen=1, strlen=1, alpha='a0', lo=-p['m'], hi=p['m'], inner=('int', 'str', 'null', 'bool'))
    sa, sb = snapshot(a), snapshot(b)
    want = ref_binop(op, a, b)
    ctx.assume(want is not SKIP)
    got = binop(bs, op, a, b)
    ctx.reach(op)
    if op in ('&&', '||'):
        ctx.check(got is want or same(got, want), lambda: f'{show(a)} {op} {show(b)} gives {show(got)}, expected {show(want)}')
    else:
        ctx.check(same(got, want), lambda: f'{show(a)} {op} {show(b)} gives {show(got)}, expected {show(want)}')
    ctx.check(ident(a, sa) and ident(b, sb), lambda: f'{op} changed an operand')


def number(ctx, name, big):
    if ctx.flag(name + '.pick'):
        return ctx.pick(name, (0, 1, -1, 2, -2, 3.0, -3.0, 7, -7, 10.0, -10.0, 0.5, -0.5, 1.5, -2.25, 100, 60.0, 1000.0, 0.0))
    return ctx.int(name + '.i', -big, big) if ctx.flag(name + '.int') else ctx.num(name + '.f', -big, big, 4)


def arithmetic(ctx, bs):
    """Arithmetic and comparison of larger numbers, one of them symbolic"""
    op = ctx.pick('op', OPS[:12])
    a, b = number(ctx, 'a', ctx.params['big']), number(ctx, 'b', ctx.params['big'] if op in ('+', '-', '==', '<', '>=') else 4)
    if op == '**':
        ctx.assume(abs(b) <= 3 and abs(a) <= 100)
    want = ref_binop(op, a, b)
    ctx.assume(want is not SKIP)
    got = binop(bs, op, a, b)
    ctx.reach(op)
    ctx.check(same(got, want), lambda: f'{show(a)} {op} {show(b)} gives {show(got)}, expected {show(want)}')


def concat(ctx, bs):
    """+ with a string: the other side's text, for deeper values"""
    a = gen(ctx, 'a', ALL, depth=2, maxlen=2, strlen=1, alpha='a"é', lo=-1, hi=1, inner=('int', 'str', 'null', 'bool', 'float', 'list', 'dt', 'fn'))
    s = ctx.str('s', ctx.choice('n', 2), 'a0')
    left = ctx.flag('left')
    got = binop(bs, '+', s, a) if left else binop(bs, '+', a, s)
    want = ref_binop('+', s, a) if left else ref_binop('+', a, s)
    ctx.reach()
    ctx.check(same(got, want), lambda: f'{show(s)} + {show(a)} (string first: {left}) gives {show(got)}, expected {show(want)}')


def datetimes(ctx, bs):
    """datetime + number (either order), datetime - datetime"""
    a = gen(ctx, 'a', ('dt', 'date', 'aware'))
    form = ctx.choice('form', 3)
    if form == 2:
        b = gen(ctx, 'b', ('dt', 'date', 'aware'))
        want = ref_binop('-', a, b)
        ctx.assume(want is not SKIP)
        got = binop(bs, '-', a, b)
        ctx.reach('-')
        ctx.check(same(got, want), lambda: f'{show(a)} - {show(b)} gives {show(got)}, expected {show(want)}')
        return
    n = ctx.int('n', -10 ** 9, 10 ** 9) if ctx.flag('int') else ctx.num('f', -10 ** 6, 10 ** 6, 1)
    want = ref_binop('+', a, n)
    got = binop(bs, '+', a, n) if form == 0 else binop(bs, '+', n, a)
    ctx.reach('+')
    ctx.check(same(got, want), lambda: f'{show(a)} + {show(n)} gives {show(got)}, expected {show(want)}')


def unary(ctx, bs):
    op = ctx.pick('op', ('!', '-'))
    a = gen(ctx, 'a', ALL, depth=1, maxlen=1)
    got, want = unop(bs, op, a), ref_unop(op, a)
    ctx.reach(op)
    ctx.check(same(got, want), lambda: f'{op}{show(a)} gives {show(got)}, expected {show(want)}')


class TreeGen:
    def __init__(self, ctx, budget):
        self.ctx = ctx
        self.budget = budget
        self.calls = 0

    def expr(self, depth):
        self.budget -= 1
        kinds = ['var', 'call0']
        if self.budget > 0 and depth > 0:
            kinds += ['bin', 'sc', 'call', 'if', 'un', 'group']
        k = self.ctx.pick('k', kinds)
        if k == 'var':
            return {'variable': self.ctx.pick('v', ('x', 'null', 'true', 'y'))}
        if k == 'group':
            return {'group': self.expr(depth - 1)}
        if k == 'un':
            return {'unary': {'op': self.ctx.pick('o', ('!', '-')), 'expr': self.expr(depth - 1)}}
        if k == 'bin' or k == 'sc':
            op = self.ctx.pick('o', ('+', '-', '*', '==', '<') if k == 'bin' else ('&&', '||'))
            return {'binary': {'op': op, 'left': self.expr(depth - 1), 'right': self.expr(depth - 1)}}
        if k == 'if':
            n = self.ctx.choice('n', 4)
            return {'function': {'name': 'if', 'args': [self.expr(depth - 1) for _ in range(n)]}}
        self.calls += 1
        n = 0 if k == 'call0' else self.ctx.choice('n', 2) + 1
        call = {'name': f'h{self.calls}'}
        if n or self.ctx.flag('args'):
            call['args'] = [self.expr(depth - 1) for _ in range(n)]
        return {'function': call}


def trees(ctx, bs):
    """Trees with effectful calls: value, order and number of the calls, short circuits, if()"""
    p = ctx.params
    g = TreeGen(ctx, p['budget'])
    tree = g.expr(p['depth'])
    ctx.assume(g.calls >= 1)
    env = {'x': ctx.int('x', -1, 1), 'y': ctx.str('y', 1, 'ab')}
    results = {}

    def outcome(i):
        if i not in results:
            results[i] = gen(ctx, f'r{i}', ('bool', 'int', 'str', 'null'), strlen=1, alpha='a', lo=0, hi=1)
        return results[i]

    want_log = []

    def callfn(name, args):
        want_log.append((name, args))
        return outcome(name)

    try:
        want = ref_eval(tree, env.get, callfn)
    except NegZero:
        ctx.assume(False)
    got_log = []

    def host(name):
        def f(args, options):
            got_log.append((name, list(args)))
            return outcome(name)
        return f

    glob = dict(env)
    for i in range(1, g.calls + 1):
        glob[f'h{i}'] = host(f'h{i}')
    before = str(tree)
    mode = ctx.choice('mode', 3)
    if mode == 0:
        got = bs.runtime.evaluate_expression(tree, {'globals': glob})
    elif mode == 1:
        got = bs.runtime.evaluate_expression(tree, {'globals': glob}, {}, False)
    else:
        got = bs.runtime.execute_script({'statements': [{'return': {'expr': tree}}]}, {'globals': glob})
    ctx.reach()
    ctx.check(len(got_log) == len(want_log) and all(a[0] == b[0] and same(a[1], b[1]) for a, b in zip(got_log, want_log)),
              lambda: f'calls {show(got_log)}, expected {show(want_log)}: {tree}')
    ctx.check(want is SKIP or same(got, want), lambda: f'value {show(got)}, expected {show(want)}: {tree} results {show(results)} env {show(env)}')
    ctx.check(str(tree) == before, 'the expression was changed')


def order(ctx, bs):
    """Every operator and call form over effectful operands: each is evaluated once, left to right"""
    op = ctx.pick('op', OPS + ('!', '-u', 'args', 'if'))
    calls = [0]

    def operand(i):
        form = ctx.choice(f'form{i}', 3)
        calls[0] += 1
        call = {'function': {'name': f'h{calls[0]}', 'args': []}}
        if form == 1:
            return {'group': call}
        if form == 2:
            calls[0] += 1
            return {'binary': {'op': ctx.pick(f'in{i}', ('**', '-', '<', '&&')), 'left': call, 'right': {'function': {'name': f'h{calls[0]}', 'args': []}}}}
        return call

    if op in OPS:
        tree = {'binary': {'op': op, 'left': operand(0), 'right': operand(1)}}
    elif op in ('!', '-u'):
        tree = {'unary': {'op': op[0], 'expr': operand(0)}}
    else:
        tree = {'function': {'name': 'hh' if op == 'args' else 'if', 'args': [operand(i) for i in range(3)]}}
    results = {}

    def outcome(name):
        if name not in results:
            results[name] = ctx.int(name, 0, 2)
        return results[name]

    want_log = []

    def callfn(name, args):
        want_log.append((name, args))
        return outcome(name)

    try:
        want = ref_eval(tree, {}.get, callfn)
    except NegZero:
        ctx.assume(False)
    got_log = []

    def host(name):
        def f(args, options):
            got_log.append((name, list(args)))
            return outcome(name)
        return f

    glob = {f'h{i + 1}': host(f'h{i + 1}') for i in range(calls[0])}
    glob['hh'] = host('hh')
    got = bs.runtime.evaluate_expression(tree, {'globals': glob}, None, ctx.flag('builtins'))
    ctx.reach(op)
    ctx.check(len(got_log) == len(want_log) and all(a[0] == b[0] and same(a[1], b[1]) for a, b in zip(got_log, want_log)),
              lambda: f'calls {show(got_log)}, expected {show(want_log)}: {tree}')
    ctx.check(want is SKIP or same(got, want), lambda: f'value {show(got)}, expected {show(want)}: {tree} results {show(results)}')


def aliases(ctx, bs):
    """Expression-mode built-ins against the library function they alias"""
    name = ctx.pick('name', sorted(ALIASES))
    n = ctx.choice('n', 4)
    kinds = ('int', 'str', 'float', 'dt', 'null', 'bool', 'list')
    args = [gen(ctx, f'a{i}', kinds if i < 2 else ('int', 'str', 'null'), depth=1, maxlen=1, strlen=2 if i == 0 else 1, alpha='a1 ', lo=-1, hi=2, inner=('int',)) for i in range(n)]
    glob = {f'v{i}': a for i, a in enumerate(args)}
    names = [{'variable': f'v{i}'} for i in range(n)]
    got = bs.runtime.evaluate_expression({'function': {'name': name, 'args': names}}, {'globals': glob})
    lib = dict(glob)
    lib[ALIASES[name]] = bs.library.SCRIPT_FUNCTIONS[ALIASES[name]]
    want = bs.runtime.evaluate_expression({'function': {'name': ALIASES[name], 'args': names}}, {'globals': lib}, None, False)
    ctx.reach(name)
    if name in ('now', 'today', 'rand'):
        ctx.check(ref_type(got) == ref_type(want), lambda: f'{name}({show(args)}) gives {show(got)}')
    else:
        ctx.check(same(got, want), lambda: f'{name}({show(args)}) gives {show(got)}, {ALIASES[name]} gives {show(want)}')


STRICT = ('abs', 'ceil', 'floor', 'sign', 'max', 'min', 'len', 'upper', 'lower', 'trim', 'round', 'text', 'pi', 'year', 'month', 'day', 'startsWith', 'endsWith', 'indexOf', 'rept')


def alias_meaning(ctx, bs):
    """Expression-mode built-ins on well-typed arguments, against their meaning"""
    name = ctx.pick('name', STRICT)
    x, y = ctx.num('x', -3, 3, 4), ctx.num('y', -3, 3, 4)
    s, t = ctx.str('s', ctx.choice('n', 3), 'aB '), ctx.str('t', 1, 'aB')
    d = datetime.datetime(2024, 2, 29)
    args, want = {
        'abs': ([x], lambda: x if x >= 0 else -x), 'ceil': ([x], lambda: -((-x) // 1)), 'floor': ([x], lambda: x // 1), 'sign': ([x], lambda: 1 if x > 0 else (-1 if x < 0 else 0)),
        'max': ([x, y], lambda: x if x >= y else y), 'min': ([x, y], lambda: x if x <= y else y), 'len': ([s], lambda: len(s)),
        'upper': ([s], lambda: ''.join(['A' if c == 'a' else c for c in s])), 'lower': ([s], lambda: ''.join(['b' if c == 'B' else c for c in s])),
        'trim': ([s], lambda: s.strip(' ')), 'round': ([x], lambda: (x + 0.5) // 1 if x >= 0 else -((-x + 0.5) // 1)), 'text': ([s], lambda: s),
        'pi': ([], lambda: 3.141592653589793), 'year': ([d], lambda: 2024), 'month': ([d], lambda: 2), 'day': ([d], lambda: 29),
        'startsWith': ([s, t], lambda: len(s) > 0 and s[0] == t), 'endsWith': ([s, t], lambda: len(s) > 0 and s[-1] == t),
        'indexOf': ([s, t], lambda: next((i for i in range(len(s)) if s[i] == t), -1)), 'rept': ([s, 2.0], lambda: s + s)
    }[name]
    if name == 'round':
        ctx.assume(x >= 0 or x * 2 != (x * 2) // 1 or x == x // 1)      # ties below zero: not fixed here
    glob = {f'v{i}': a for i, a in enumerate(args)}
    got = bs.runtime.evaluate_expression({'function': {'name': name, 'args': [{'variable': f'v{i}'} for i in range(len(args))]}}, {'globals': glob})
    want = want()
    ctx.reach(name)
    ctx.check(same(got, want), lambda: f'{name}({show(args)}) gives {show(got)}, expected {show(want)}')


WRAPS = {
    'plain': lambda e: e, 'group': lambda e: {'group': e}, 'not': lambda e: {'unary': {'op': '!', 'expr': e}}, 'neg': lambda e: {'unary': {'op': '-', 'expr': e}},
    'left': lambda e: {'binary': {'op': '+', 'left': e, 'right': {'variable': 'x'}}}, 'right': lambda e: {'binary': {'op': '==', 'left': {'variable': 'x'}, 'right': e}},
    'and': lambda e: {'binary': {'op': '&&', 'left': {'variable': 'x'}, 'right': e}}, 'or': lambda e: {'binary': {'op': '||', 'left': {'variable': 'x'}, 'right': e}},
    'arg': lambda e: {'function': {'name': 'id', 'args': [e]}}, 'cond': lambda e: {'function': {'name': 'if', 'args': [e, {'variable': 'x'}, {'variable': 'x'}]}},
    'then': lambda e: {'function': {'name': 'if', 'args': [{'variable': 'x'}, e, {'variable': 'x'}]}}, 'else': lambda e: {'function': {'name': 'if', 'args': [{'variable': 'x'}, {'variable': 'x'}, e]}},
}


def modes(ctx, bs):
    """The built-ins belong to expression mode, at whatever depth; in a script the name is undefined"""
    name = ctx.pick('name', ('abs', 'pi', 'text', 'now'))
    tree = {'function': {'name': name, 'args': [{'variable': 'x'}] if name in ('abs', 'text') else []}}
    wraps = [ctx.pick(f'w{i}', tuple(WRAPS)) for i in range(ctx.choice('depth', ctx.params['depth']) + 1)]
    # evaluated: x is the operand that decides
    x = ctx.int('x', 0, 1)
    dead = False
    for w in wraps:
        tree = WRAPS[w](tree)
        if w in ('and', 'then'):
            dead = dead or x == 0
        elif w in ('or', 'else'):
            dead = dead or x != 0
    mode = ctx.pick('mode', ('expression', 'locals', 'off', 'return', 'statement', 'assign', 'jump', 'function'))
    g = {'x': x, 'id': lambda args, options: args[0]}
    if ctx.flag('owned'):
        g[name] = lambda args, options: 1
        dead = True
    err = None
    try:
        if mode == 'expression':
            bs.runtime.evaluate_expression(tree, {'globals': g})
        elif mode == 'locals':
            bs.runtime.evaluate_expression(tree, {'globals': g}, {'y': 1})
        elif mode == 'off':
            bs.runtime.evaluate_expression(tree, {'globals': g}, None, False)
        elif mode == 'function':
            bs.runtime.execute_script({'statements': [{'function': {'name': 'ff', 'statements': [{'return': {'expr': tree}}]}}, {'return': {'expr': {'function': {'name': 'ff'}}}}]}, {'globals': g})
        else:
            statement = {'return': {'return': {'expr': tree}}, 'statement': {'expr': {'expr': tree}}, 'assign': {'expr': {'name': 'y', 'expr': tree}}, 'jump': {'jump': {'label': 'l', 'expr': tree}}}[mode]
            bs.runtime.execute_script({'statements': [statement, {'label': 'l'}]}, {'globals': g})
    except bs.runtime.BareScriptRuntimeError as e:
        err = str(e)
    ctx.reach(mode)
    want = None if dead or mode in ('expression', 'locals') else f'Undefined function "{name}"'
    ctx.check(err == want, lambda: f'{name} inside {wraps}, x = {show(x)}, mode {mode}: raised {err!r}, expected {want!r}')


HARNESSES = [
    Harness(modes, weight=0.7, quick={'depth': 2}, thorough={'depth': 3}, bounds='4 built-ins, wrapped <= depth times in 12 ways, 8 modes'),
    Harness(binary, weight=1.5, order='random', quick={'m': 2}, thorough={'m': 3}, bounds='14 operators x 13 x 13 kinds'),
    Harness(arithmetic, order='random', strata=3, quick={'big': 1000}, thorough={'big': 10 ** 6}, bounds='12 operators, numbers to +-big on a 1/4 grid'),
    Harness(concat, order='random', bounds='nesting 2'),
    Harness(datetimes, bounds='offsets up to 1e9 ms'),
    Harness(unary, weight=0.5, bounds='13 kinds'),
    Harness(trees, weight=2, order='random', quick={'budget': 6, 'depth': 3}, thorough={'budget': 9, 'depth': 4}, bounds='<= budget nodes'),
    Harness(order, order='random', bounds='18 operators and call forms, operands of 3 forms'),
    Harness(aliases, order='random', bounds='<= 3 arguments'),
    Harness(alias_meaning, bounds='20 built-ins'),
]
QUICK_SECONDS = 80
