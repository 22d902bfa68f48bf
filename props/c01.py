"""C01: structured control flow runs with its source-level meaning"""

from symx.harness import Harness
from props.common import gen, ref_truthy, ref_compare, is_num, same, show
from props.prog import Gen, World, Ref, Fuel, Undefined, lines_of, host, user_vars, same_trace

BOUNDS = ('programs of <= 3 (exhausted) to 9 statement nodes, nesting depth <= 4, blocks of <= 3 statements, <= 2 functions; <= 6 condition outcomes, '
          '<= 3 array evaluations of <= 2 elements, <= 60 statements per run; variables are symbolic integers')
ASSUMPTIONS = ['conditions are a host call with a symbolic outcome, a comparison or a negation of a symbolic variable, or true',
               'loop bodies do not assign the loop index and do not mutate the walked array',
               'after an index for the index variable keeps a value the reading does not fix (only compared inside the loop)']


def run(ctx, bs, prog, typed=None, conds=6, arrays=3, arrlen=2):
    world = World(ctx, conds, arrays, arrlen, typed=typed)
    x0, y0 = ctx.int('x', 0, 2), ctx.int('y', 0, 2)
    ref = Ref(world, {'x': x0, 'y': y0})
    err = None
    try:
        r = ref.block(prog, None)
        want = r[1] if r is not None else None
    except Fuel:
        ctx.assume(False)
    except Undefined as e:
        err = f'Undefined function "{e}"'
        want = None
    text = '\n'.join(lines_of(prog))
    script = bs.parser.parse_script(text)
    trace = []
    g = host(world, trace)
    g['x'] = x0
    g['y'] = y0
    options = {'globals': g, 'logFn': lambda m: trace.append(('log', m)), 'maxStatements': 2000}
    got_err = None
    got = None
    try:
        got = bs.runtime.execute_script(script, options)
    except bs.runtime.BareScriptRuntimeError as e:
        got_err = str(e)
    except Fuel:
        ctx.fail(lambda: f'consults more conditions or arrays than the reading:\n{text}\n inputs {show(world.outcomes)}')
    ctx.reach()
    ctx.check(got_err == err, lambda: f'raised {got_err!r}, expected {err!r}:\n{text}')
    ctx.check(same_trace(trace, ref.trace), lambda: f'output {show(trace)}, expected {show(ref.trace)}; outcomes {show(world.outcomes)} arrays {show(world.arrays)} x={show(x0)} y={show(y0)}:\n{text}')
    ctx.check(same(got, want), lambda: f'returned {show(got)}, expected {show(want)}; outcomes {show(world.outcomes)} arrays {show(world.arrays)}:\n{text}')
    a, b = user_vars(g, ('x', 'y', 'v')), user_vars(ref.g, ('x', 'y', 'v'))
    ctx.check(list(sorted(a)) == list(sorted(b)) and all(same(a[k], b[k]) for k in a), lambda: f'globals {show(a)}, expected {show(b)}; outcomes {show(world.outcomes)} arrays {show(world.arrays)}:\n{text}')
    for name in ('f0', 'f1'):
        ctx.check((name in g) == (name in ref.fns), lambda: f'{name} bound: {name in g}:\n{text}')


def small(ctx, bs):
    """Every program of a few nodes"""
    g = Gen(ctx, ctx.params['budget'], 3, ('log', 'set', 'if', 'while', 'for', 'break', 'continue', 'return'), maxblock=2)
    run(ctx, bs, g.block(0, False, None, 1))


def loops(ctx, bs):
    """Loops, ifs, break and continue, larger"""
    g = Gen(ctx, ctx.params['budget'], 4, ('while', 'for', 'if', 'break', 'continue', 'log'))
    run(ctx, bs, [('for', 'v', 'i0', g.block(1, True, None, 1)) if ctx.flag('kind0') else ('while', 'call', g.block(1, True, None, 1))] + [('log', 'end')])


def ifs(ctx, bs):
    """if chains"""
    g = Gen(ctx, ctx.params['budget'], 3, ('if', 'log', 'set'), maxblock=2)
    run(ctx, bs, g.block(0, False, None, 1))


def funcs(ctx, bs):
    """Functions: definitions (also inside blocks), calls, loops and returns inside"""
    g = Gen(ctx, ctx.params['budget'], 3, ('log', 'call', 'return', 'set', 'if', 'for', 'while', 'break', 'continue', 'show'), ('def',))
    prog = [('def', 'f0', g.block(0, False, 'f0'))] if ctx.flag('def0') else []
    g.fns = len(prog)
    run(ctx, bs, prog + g.block(0, False, None, 1))


def mixed(ctx, bs):
    g = Gen(ctx, ctx.params['budget'], 4, ('if', 'while', 'for', 'log', 'set', 'show', 'break', 'continue', 'return'))
    run(ctx, bs, g.block(0, False, None, 2))


KINDS = ('null', 'bool', 'int', 'float', 'str', 'list', 'obj', 'dt', 'date', 'fn', 'regex', 'unknown')


def value(ctx, name):
    return gen(ctx, name, KINDS)


def conds(ctx, bs):
    """Conditions of every value type, in every form of condition"""
    g = Gen(ctx, ctx.params['budget'], 3, ('if', 'while', 'log', 'break'), maxblock=2)
    g.conds = g.while_conds = ('call', 'notcall', 'group', 'and', 'or', 'ifcall')
    run(ctx, bs, g.block(0, False, None, 1), value)


def wide(ctx, bs):
    """Long elif chains, loops with several jumps, blocks side by side"""
    n = ctx.params['n']

    def block(tag, loop):
        k = ctx.pick('k' + tag, ('chain', 'while', 'for', 'forix'))
        if k == 'chain':
            m = ctx.choice('m' + tag, n) + 1
            at = ctx.choice('at' + tag, m + 1)
            bodies = [[('log', f'{tag}{i}')] for i in range(m + 1)]
            bodies[at] = ctx.pick('in' + tag, ([], [('if', [('call', [('log', tag + 'in')])], [('log', tag + 'else')])], [('for', 'v', None, [('show', 'v')])], [('return', 'x')],
                                               [('break',)] if loop else [], [('continue',)] if loop else [('log', 'n')]))
            return [('if', [('call', b) for b in bodies[:m]], bodies[m] if ctx.flag('else' + tag) else None)]
        body = []
        for i in range(ctx.choice('m' + tag, 3)):
            body += [('if', [('call', [('log', f'{tag}{i}'), (ctx.pick(f'j{tag}{i}', ('break', 'continue')),)])], None), ('show', 'i' + tag if k == 'forix' else 'x')]
        if k == 'while':
            return [('while', 'call', body)]
        return [('for', 'v', 'i' + tag if k == 'forix' else None, body + [('show', 'v')])]

    prog = [('log', 'start')]
    if ctx.flag('loop'):
        outer = ctx.pick('outer', ('while', 'for'))
        body = block('a', True) + [('log', 'mid')]
        prog.append(('while', 'call', body) if outer == 'while' else ('for', 'x', 'i9', body))
        prog.append(('log', 'end'))
    else:
        prog += block('a', False) + [('log', 'mid')] + block('b', False)
    run(ctx, bs, prog, None, 8, 4, 3)


def deep(ctx, bs):
    """Deep nests: any block kind at each level, jumps before and after the inner block"""
    d = ctx.choice('d', ctx.params['d'] - 1) + 2

    def tail(i, loop):
        k = ctx.pick(f't{i}', ('none', 'log', 'show') + (('break', 'continue') if loop else ()))
        return [] if k == 'none' else [('log', f'T{i}')] if k == 'log' else [('show', 'x')] if k == 'show' else [(k,)]

    def level(i, loop):
        if i == d:
            return [('log', 'in')] + tail(i, loop)
        k = ctx.pick(f'k{i}', ('if', 'else', 'elif', 'while', 'for', 'forix'))
        inner = level(i + 1, loop or k in ('while', 'for', 'forix'))
        after = tail(i, loop)
        if k == 'if':
            return [('if', [('call', inner)], None)] + after
        if k == 'else':
            return [('if', [('call', [('log', f'I{i}')])], inner)] + after
        if k == 'elif':
            return [('if', [('call', [('log', f'I{i}')]), ('call', inner)], None)] + after
        if k == 'while':
            return [('while', 'call', inner)] + after
        return [('for', 'x', f'i{i}' if k == 'forix' else None, inner + ([('show', f'i{i}')] if k == 'forix' else []))] + after

    body = level(0, False)
    if ctx.flag('fn'):
        run(ctx, bs, [('def', 'f0', body), ('call', 'f0', 'x')], None, 7, 4, 2)
    else:
        run(ctx, bs, body, None, 7, 4, 2)


LETTERS = frozenset(range(32, 127)) | {0, 9, 10, 0xe9, 0x1f600}


def big(ctx, name):
    return gen(ctx, name, KINDS, strlen=6, alpha=LETTERS, lo=-9007199254740992, hi=9007199254740992, inner=('null', 'bool', 'float', 'list'))


def truthy(ctx, bs):
    """One condition value of a wide domain in each place that tests a condition"""
    v = big(ctx, 'v')
    truth = bool(ref_truthy(v))
    form = ctx.pick('form', ('if', 'elif', 'while', 'not', 'and', 'or', 'ifcall', 'break', 'fn'))
    text = {
        'if': "if v:\nlog('t')\nelse:\nlog('f')\nendif",
        'elif': "if !true:\nlog('x')\nelif v:\nlog('t')\nelse:\nlog('f')\nendif",
        'while': "n = 0\nwhile v:\nlog('t')\nbreak\nendwhile\nif n == 0:\nlog('f')\nendif",
        'not': "if !v:\nlog('f')\nelse:\nlog('t')\nendif",
        'and': "if v && true:\nlog('t')\nelse:\nlog('f')\nendif",
        'or': "if v || false:\nlog('t')\nelse:\nlog('f')\nendif",
        'ifcall': "log(if(v, 't', 'f'))",
        'break': "for w in arrayNew(v, v):\nif w:\nlog('t')\nbreak\nendif\nlog('f')\nbreak\nendfor",
        'fn': "function gg(a):\nif a:\nlog('t')\nreturn a\nendif\nlog('f')\nendfunction\ngg(v)"}[form]
    out = []
    bs.runtime.execute_script(bs.parser.parse_script(text), {'globals': {'v': v, 'log': lambda args, options: out.append(args[0])}, 'maxStatements': 100})
    want = ['t', 'f'] if form == 'while' and truth else ['t' if truth else 'f']
    ctx.reach()
    ctx.check(out == want, lambda: f'{out} with v = {show(v)}:\n{text}')


def walk(ctx, bs):
    """for over an array of values of every type: each element in order, with its index"""
    values = [big(ctx, f'e{i}') for i in range(ctx.choice('n', ctx.params['n'] + 1))]
    index = ctx.flag('index')
    fn = ctx.flag('fn')
    stop = ctx.pick('stop', ('none', 'break', 'continue', 'return'))
    body = ['arrays = arrays + 1', 'for v, i in get():' if index else 'for v in get():']
    if stop != 'none':
        body += ['if v:', stop, 'endif']
    body += ['seen(v, i)' if index else 'seen(v)', 'endfor']
    lines = ['function ff():', *body, 'return arrays', 'endfunction', 'ff()'] if fn else body
    seen, gets = [], []

    def get(args, options):
        gets.append(0)
        return values

    bs.runtime.execute_script(bs.parser.parse_script('\n'.join(lines)), {
        'globals': {'arrays': 0, 'get': get, 'seen': lambda args, options: seen.append(list(args))}, 'maxStatements': 1000})
    want = []
    for i, v in enumerate(values):
        if stop != 'none' and ref_truthy(v):
            if stop == 'continue':
                continue
            break
        want.append([v, i] if index else [v])
    ctx.reach()
    ctx.check(len(gets) == 1 and len(seen) == len(want) and all(len(a) == len(b) and a[0] is b[0] or same(a[0], b[0]) for a, b in zip(seen, want))
              and all(a[1] == b[1] for a, b in zip(seen, want) if index), lambda: f'saw {show(seen)}, expected {show(want)}, evaluated {len(gets)} times:\n' + '\n'.join(lines))


def forms(ctx, bs):
    """Conditions of any form: groups, negations, comparisons and logical operators, evaluated once for each test"""
    left = [ctx.params['n']]

    def expr(tag):
        left[0] -= 1
        k = ctx.pick('k' + tag, ('not', 'group', 'cmp', 'and', 'or', 'arith', 'x', 'cc') if left[0] > 0 else ('x', 'cc', 'num'))
        if k in ('not', 'group'):
            return (k, expr(tag + 'u'))
        if k in ('cmp', 'and', 'or', 'arith'):
            return (k, {'cmp': lambda: ctx.pick('o' + tag, ('<', '==', '>=', '!=')), 'arith': lambda: ctx.pick('o' + tag, '+-')}.get(k, lambda: {'and': '&&', 'or': '||'}[k])(), expr(tag + 'l'), expr(tag + 'r'))
        return (k,)

    def text(e):
        if e[0] == 'not':
            return '!' + (text(e[1]) if e[1][0] in ('not', 'group', 'x', 'cc', 'num') else '(' + text(e[1]) + ')')
        if e[0] == 'group':
            return '(' + text(e[1]) + ')'
        if len(e) == 1:
            return {'x': 'xx', 'cc': 'cc()', 'num': '2'}[e[0]]
        return ' '.join((operand(e[2]), e[1], operand(e[3])))

    def operand(e):
        return '(' + text(e) + ')' if len(e) == 4 else text(e)

    def value(e, state):
        if e[0] == 'not':
            return not ref_truthy(value(e[1], state))
        if e[0] == 'group':
            return value(e[1], state)
        if e[0] == 'and' or e[0] == 'or':
            a = value(e[2], state)
            return value(e[3], state) if ref_truthy(a) == (e[0] == 'and') else a
        if len(e) == 4:
            a, b = value(e[2], state), value(e[3], state)
            if e[0] == 'arith':
                return None if not (is_num(a) and is_num(b)) else a + b if e[1] == '+' else a - b
            c = ref_compare(a, b)
            return {'<': c < 0, '==': c == 0, '>=': c >= 0, '!=': c != 0}[e[1]]
        if e[0] == 'x':
            return state['xx']
        if e[0] == 'num':
            return 2
        state['cc'] += 1
        state['trace'].append('cc')
        return outcome(state['cc'])

    outcomes = {}

    def outcome(i):
        if i not in outcomes:
            outcomes[i] = ctx.flag(f'cc{i}') if i < 4 else False
        return outcomes[i]

    e = expr('')
    kind = ctx.pick('kind', ('while', 'if', 'elif', 'inner', 'fn'))
    loop = ['while ' + text(e) + ':', "log('in')", 'xx = xx + 1', 'nn = nn + 1', 'if nn == 3:', 'break', 'endif', 'endwhile']
    lines = {'while': loop, 'if': ['if ' + text(e) + ':', "log('in')", 'else:', "log('else')", 'endif'], 'elif': ['if false:', "log('no')", 'elif ' + text(e) + ':', "log('in')", 'else:', "log('else')", 'endif'],
             'inner': ['while nn < 2:', 'nn = nn + 1', 'if ' + text(e) + ':', "log('in')", 'continue', 'endif', 'xx = xx - 1', 'endwhile'], 'fn': ['function ff(xx, nn):', *loop, 'return xx', 'endfunction', 'xx = ff(xx, 0)']}[kind]
    lines.append('log(xx)')
    x = ctx.int('x', -1, 2)
    out = []
    calls = [0]

    def cc(args, options):
        calls[0] += 1
        out.append('cc')
        return outcome(calls[0])

    source = '\n'.join(lines)
    bs.runtime.execute_script(bs.parser.parse_script(source), {'globals': {'xx': x, 'nn': 0, 'cc': cc, 'log': lambda args, options: out.append(args[0])}, 'maxStatements': 200})
    st = {'xx': x, 'cc': 0, 'trace': []}
    want = st['trace']
    if kind in ('while', 'fn'):
        for _ in range(3):
            if not ref_truthy(value(e, st)):
                break
            want.append('in')
            st['xx'] = st['xx'] + 1
    elif kind == 'inner':
        for _ in range(2):
            if ref_truthy(value(e, st)):
                want.append('in')
            else:
                st['xx'] = st['xx'] - 1
    else:
        truth = ref_truthy(value(e, st))
        want.append('in' if truth else 'else')
    want.append(st['xx'])
    ctx.reach(kind)
    ctx.check(len(out) == len(want) and all(same(a, b) for a, b in zip(out, want)), lambda: f'output {show(out)}, expected {show(want)}, x = {show(x)}:\n{source}')


def rebind(ctx, bs):
    """for while the script itself binds the name of a library function"""
    name = ctx.pick('name', ('arrayLength', 'arrayGet', 'arrayPush', 'systemLog', 'mathAbs', 'length'))
    how = ctx.pick('how', ('none', 'function', 'assign', 'local', 'param', 'caller'))
    n = ctx.choice('n', 3)
    values = [ctx.int(f'e{i}', 0, 3) for i in range(n)]
    loop = ['for v in get():', 'seen(v)', 'endfor', 'seen(9)']
    lines = {'none': loop, 'function': [f'function {name}(aa):', 'return 7', 'endfunction', *loop], 'assign': [f'{name} = 7', *loop],
             'local': ['function ff():', f'{name} = 7', *loop, 'endfunction', 'ff()'], 'param': [f'function ff({name}):', *loop, 'endfunction', 'ff(7)'], 'caller': loop}[how]
    seen = []
    glob = {'get': lambda args, options: values, 'seen': lambda args, options: seen.append(args[0])}
    if how == 'caller':
        glob[name] = 7
    err = None
    try:
        bs.runtime.execute_script(bs.parser.parse_script('\n'.join(lines)), {'globals': glob, 'maxStatements': 200})
    except bs.runtime.BareScriptRuntimeError as e:
        err = str(e)
    ctx.reach()
    ctx.check(err is None and same(seen, values + [9]), lambda: f'for while {name} is bound by {how}: saw {show(seen)}, array {show(values)} {err or ""}')


HARNESSES = [
    Harness(rebind, weight=0.3, bounds='6 names, 6 ways to bind, arrays of <= 2'),
    Harness(truthy, order='random', bounds='strings of <= 6 characters, numbers up to 2**53, containers; 9 places'),
    Harness(forms, weight=1.5, order='random', strata=3, quick={'n': 4}, thorough={'n': 6}, bounds='condition trees of <= n inner nodes in 5 places'),
    Harness(walk, order='random', quick={'n': 3}, thorough={'n': 5}, bounds='arrays of <= n values of every type'),
    Harness(wide, order='random', quick={'n': 5}, thorough={'n': 8}, bounds='chains of <= n branches, loops of <= 3 jumps, two blocks or one inside a loop; 8 outcomes, 4 arrays of <= 3'),
    Harness(deep, order='random', quick={'d': 4}, thorough={'d': 6}, bounds='nests of depth 2..d'),
    Harness(conds, order='random', quick={'budget': 3}, thorough={'budget': 4}, bounds='<= budget nodes; condition values of every type'),
    Harness(small, quick={'budget': 3}, thorough={'budget': 4}, bounds='<= budget nodes, blocks <= 2'),
    Harness(loops, weight=1.5, order='random', quick={'budget': 5}, thorough={'budget': 7}, bounds='one outer loop, <= budget inner nodes'),
    Harness(ifs, order='random', quick={'budget': 4}, thorough={'budget': 5}, bounds='<= budget nodes'),
    Harness(funcs, weight=1.5, order='random', quick={'budget': 5}, thorough={'budget': 7}, bounds='<= budget nodes, <= 2 functions'),
    Harness(mixed, order='random', quick={'budget': 7}, thorough={'budget': 9}, bounds='<= budget nodes'),
]
QUICK_SECONDS = 75
