"""C09: the statement budget is exact, complete and monotone"""

from symx.harness import Harness
from props.common import show, same

BOUNDS = ('programs of <= 4 (quick) / 6 (thorough) top-level items, two functions of <= 3 items and two include files of <= 2 items, invoked in 16 ways; symbolic limit 0..14 / 0..30, '
          'symbolic outcomes of the first 4 conditions (all later ones false, or all true: programs that never end); hand-built models of <= 4 statements with functions anywhere, limits 1..12 / 1..24')
ASSUMPTIONS = ['statements are counted independently of the interpreter: every statement begins with a call of a host function that counts it, together with the function, label and include '
               'statements that follow it directly', 'data of two rows, arrays of two elements']

CALLS = ('ff()', 'gg()', 'arrayIndexOf(arr, ff)', 'arrayLastIndexOf(arr, ff)', 'arraySort(arrayCopy(arr), ff)', "dataFilter(dat, 'ff()')", "dataFilter(dat, 'ff() + vv', objectNew('vv', 1))",
         "dataFilter(dat, 'vv()', objectNew('vv', ff))", "dataCalculatedField(dat, 'z', 'ff()')", "dataCalculatedField(dat, 'z', 'ff() + vv', objectNew('vv', 1))", "dataJoin(dat, dat, 'ff()')",
         "dataJoin(dat, dat, 'vv + ff()', 'ff()', false, objectNew('vv', 1))", 'if(true, ff(), gg())', 'pp()', 'arrayIndexOf(arr, pp)', "dataFilter(dat, 'arrayIndexOf(arrayNew(1, 2), ff) + vv', objectNew('vv', 1))")
FUEL = 60


class Fuel(BaseException):
    pass


class Prog:
    def __init__(self, ctx, calls=CALLS):
        self.ctx = ctx
        self.calls = calls
        self.n = 0
        self.labels = 0

    def tick(self, weight=1):
        self.n += 1
        return f'tick({self.n}, {weight})'

    def items(self, count, kinds, out):
        for _ in range(count):
            k = self.ctx.pick('k', kinds)
            if k == 'tick':
                out.append(self.tick())
            elif k == 'call':
                out.append(f'x = {self.tick()} + {self.ctx.pick("call", self.calls)}')
            elif k == 'return':
                out.append(f'return {self.tick()}')
            elif k == 'include':
                out.append(f'y = {self.tick(2)}')
                out.append(self.ctx.pick('u', ("include 'u1'", 'include <u1>')))
            elif k == 'include2':
                out.append(f'y = {self.tick(2)}')
                out.append("include 'u2'")
            elif k == 'twice':
                # two include lines are one statement
                out.append(f'y = {self.tick(2)}')
                out.append("include 'u1'")
                out.append("include 'u2'")
            elif k == 'loop':
                self.labels += 1
                out.append(self.tick(2))
                out.append(f'la{self.labels}:')
                body = self.ctx.pick('body', ('tick', 'call'))
                out.append(self.tick() if body == 'tick' else f'x = {self.tick()} + {self.ctx.pick("call", self.calls)}')
                out.append(f'jumpif ({self.tick()}) la{self.labels}')
            elif k == 'skip':
                self.labels += 1
                out.append(f'jumpif ({self.tick()}) lb{self.labels}')
                out.append(self.tick(2))
                out.append(f'lb{self.labels}:')
        return out

    def function(self, name, count, kinds):
        return [f'y = {self.tick(2)}', f'function {name}():'] + self.items(count, kinds, []) + ['endfunction']


def execute(bs, script, files, outcomes, tail, limit, fuel=FUEL, reuse=None):
    trace = []

    def tick(args, options):
        if len(trace) >= fuel:
            raise Fuel()
        trace.append(args)
        i = len(trace) - 1
        return outcomes[i] if i < len(outcomes) else tail

    g = {'tick': tick, 'arr': [2, 1], 'dat': [{'k': 1}, {'k': 2}]}
    options = reuse if reuse is not None else {}
    options['globals'] = g
    options['fetchFn'] = lambda r: files.get(r['url'])
    if limit is not None:
        options['maxStatements'] = limit
    else:
        options.pop('maxStatements', None)
    err = res = None
    try:
        res = bs.runtime.execute_script(script, options)
    except bs.runtime.BareScriptRuntimeError as e:
        err = str(e)
    except Fuel:
        err = 'fuel'
    return res, err, trace, g, options


def ordinals(trace):
    out = []
    n = 0
    for t in trace:
        out.append(n + 1)
        n += t[1]
    return out, n


def check(ctx, bs, lines, files):
    src = '\n'.join(lines) + ''.join([f'\n--- {u}\n{t}' for u, t in files.items()])
    script = bs.parser.parse_script('\n'.join(lines))
    outcomes = [ctx.int(f'q{i}', 0, 1) for i in range(ctx.params.get('outcomes', 4))]
    tail = ctx.choice('tail', 2)
    res0, err0, tr0, g0, o0 = execute(bs, script, files, outcomes, tail, 0)
    at, n = ordinals(tr0)
    # an error of the unlimited run other than the fuel (an undefined function) is part of its behaviour
    maxl = ctx.params['L']
    if err0 != 'fuel':
        if err0 is None:
            ctx.check(o0['statementCount'] == n, lambda: f'counted {o0["statementCount"]} statements, {n} started:\n{src}')
        maxl = min(maxl, n + 2)
    ctx.assume(n > 0)
    if err0 != 'fuel' and ctx.flag('near'):
        limit = ctx.int('Lnear', max(1, n - 2), n + 2)
    else:
        limit = ctx.int('L', 1, maxl)
    reuse = {} if ctx.flag('reuse') else None
    if reuse is not None:
        # the same options object again: the count starts from zero
        execute(bs, script, files, outcomes, tail, 3, reuse=reuse)
    res, err, tr, g, o = execute(bs, script, files, outcomes, tail, limit, reuse=reuse)
    if limit >= n and err0 != 'fuel':
        ctx.reach('within')
        ctx.check(err == err0 and same_events(tr, tr0) and same(res, res0), lambda: f'limit {show(limit)} with {n} statements: {show(err)} {show(res)} events {ids(tr)}, unlimited {show(err0)} {show(res0)} {ids(tr0)}:\n{src}')
        ctx.check(all(same(g.get(k), g0.get(k)) for k in ('x', 'y')), lambda: f'limit {show(limit)}: globals differ from the unlimited run:\n{src}')
        ctx.check(o['statementCount'] == o0['statementCount'], lambda: f'limit {show(limit)}: count {o["statementCount"]}, unlimited {o0["statementCount"]}:\n{src}')
    else:
        ctx.reach('endless' if err0 == 'fuel' else 'over')
        want = [t for t, a in zip(tr0, at) if a <= limit]
        ctx.check(same_events(tr, want), lambda: f'limit {show(limit)}: events {ids(tr)}, expected {ids(want)}:\n{src}')
        ctx.check(err is not None and err[:35] == 'Exceeded maximum script statements ', lambda: f'limit {show(limit)}, {n} statements: error {show(err)}, result {show(res)}:\n{src}')
    if err0 != 'fuel' and ctx.flag('default'):
        res, err, tr, g, o = execute(bs, script, files, outcomes, tail, None)
        ctx.check(err == err0 and same_events(tr, tr0) and same(res, res0), lambda: f'default limit: {show(err)} {ids(tr)}, unlimited {show(err0)} {ids(tr0)}:\n{src}')


def same_events(a, b):
    return len(a) == len(b) and all(x[0] == y[0] for x, y in zip(a, b))


def ids(trace):
    return [t[0] for t in trace]


def calls(ctx, bs):
    """Every way to invoke a function"""
    p = Prog(ctx)
    kinds = ('tick', 'return', 'loop')
    lines = p.function('gg', 1, ('tick',)) + p.function('ff', ctx.choice('nf', ctx.params['body']) + 1, kinds)
    if ctx.flag('pp'):
        lines.append(f'pp = systemPartial(ff, {p.tick()})')
    p.items(1, ('call', 'loop'), lines)
    p.items(ctx.choice('n', ctx.params['n'] + 1), ('tick', 'call'), lines)
    check(ctx, bs, lines, {})


def includes(ctx, bs):
    """Includes, nested, in loops, in functions"""
    p = Prog(ctx, CALLS[:4] + CALLS[6:7])
    u2 = p.items(ctx.choice('n2', 2) + 1, ('tick', 'call'), [])
    u1 = p.items(ctx.choice('n1', 2) + 1, ('tick', 'include2', 'return', 'loop'), [])
    if ctx.flag('def1'):
        u1 = p.function('gg', 1, ('tick', 'include2')) + u1
    lines = p.function('ff', ctx.choice('nf', 2) + 1, ('tick', 'include', 'include2')) if ctx.flag('def') else []
    p.items(ctx.choice('n', ctx.params['n']) + 1, ('include', 'call', 'tick', 'twice', 'include2', 'skip'), lines)
    check(ctx, bs, lines, {'u1': '\n'.join(u1), 'u2': '\n'.join(u2)})


def flow(ctx, bs):
    """Loops, skips and returns"""
    p = Prog(ctx, CALLS[:1])
    lines = p.function('ff', ctx.choice('nf', 2) + 1, ('tick', 'skip', 'loop', 'return')) if ctx.flag('def') else []
    p.items(ctx.choice('n', ctx.params['n']) + 1, ('tick', 'loop', 'skip', 'call', 'return'), lines)
    check(ctx, bs, lines, {})


def recursion(ctx, bs):
    """Functions that call themselves and each other, directly and through the library"""
    p = Prog(ctx, CALLS)
    lines = p.function('gg', ctx.choice('ng', 2) + 1, ('tick', 'call', 'skip')) + p.function('ff', ctx.choice('nf', ctx.params['n']) + 1, ('call', 'skip', 'tick', 'return'))
    p.items(1, ('call',), lines)
    check(ctx, bs, lines, {})


def structured(ctx, bs):
    """Structured programs: limits below, at and above the length"""
    from props import prog as P
    g = P.Gen(ctx, ctx.params['budget'], 3, ('log', 'if', 'while', 'for', 'continue', 'break', 'call', 'return'), ('def',), maxblock=2)
    tree = [('def', 'f0', g.block(0, False, 'f0'))] if ctx.flag('def0') else []
    g.fns = len(tree)
    tree = tree + g.block(0, False, None, 1)
    text = '\n'.join(P.lines_of(tree))
    script = bs.parser.parse_script(text)
    world = P.World(ctx, conds=5, arrays=2)

    def execute_(limit):
        trace = []
        gl = P.host(world, trace)
        gl['x'] = 0
        options = {'globals': gl, 'logFn': trace.append, 'maxStatements': limit}
        err = None
        try:
            bs.runtime.execute_script(script, options)
        except bs.runtime.BareScriptRuntimeError as e:
            err = str(e)
        except P.Fuel:
            err = 'fuel'
        return err, trace, options['statementCount']

    err0, tr0, n0 = execute_(150)
    ctx.assume(err0 != 'fuel')
    ended = err0 is None or err0[0] != 'E'
    limit = ctx.int('L', 1, min(n0 + 2, ctx.params['L']) if ended else ctx.params['L'])
    err, tr, n = execute_(limit)
    if ended and limit >= n0:
        ctx.reach('within')
        ctx.check(err == err0 and tr == tr0 and n == n0, lambda: f'limit {show(limit)}, {n0} statements: {err} {tr}, unlimited {err0} {tr0}:\n{text}')
    else:
        ctx.reach('over')
        ctx.check(err is not None and err[:35] == 'Exceeded maximum script statements ', lambda: f'limit {show(limit)}, {n0} statements: {err}:\n{text}')
        ctx.check(tr == tr0[:len(tr)], lambda: f'limit {show(limit)}: {tr} is no prefix of {tr0}:\n{text}')


def models(ctx, bs):
    """Jump-level models with functions anywhere, against a reference that counts every statement it starts"""
    from props import c08
    model = {'statements': c08.anywhere(ctx)}
    vals = c08.inputs(ctx, 'a')
    limit = ctx.int('L', 1, ctx.params['L'])
    m = c08.Machine(dict(vals), limit)
    want = werr = None
    try:
        want = m.run(model['statements'], None)
    except c08.Stop as e:
        werr = str(e)
    res, err, trace, g, count = c08.observe(bs, model, vals, limit)
    ctx.reach('over' if werr is not None and werr[0] == 'E' else 'within')
    text = lambda: f'limit {show(limit)}: {c08.listing(model)} with {show(vals)}'       # noqa: E731
    if werr == 'Unknown jump label':
        ctx.check(err is not None and err[:18] == werr, lambda: f'error {err!r}, expected {werr!r}: {text()}')
    else:
        ctx.check(err == werr, lambda: f'error {err!r}, expected {werr!r}: {text()}')
    ctx.check(len(trace) == len(m.trace) and all(same(a, b) for a, b in zip(trace, m.trace)), lambda: f'output {show(trace)}, expected {show(m.trace)}: {text()}')
    ctx.check(same(res, want) and same(g['x'], m.g['x']), lambda: f'result {show(res)}, x {show(g["x"])}, expected {show(want)}, {show(m.g["x"])}: {text()}')
    ctx.check(err is not None or count == m.count, lambda: f'counted {count} statements, {m.count} started: {text()}')


HARNESSES = [
    Harness(calls, weight=1.5, order='random', quick={'body': 2, 'n': 1, 'L': 14}, thorough={'body': 3, 'n': 2, 'L': 30}, bounds='16 ways to call, bodies <= body items, limits 1..L'),
    Harness(includes, weight=1.5, order='random', quick={'n': 2, 'L': 14, 'outcomes': 3}, thorough={'n': 3, 'L': 30}, bounds='<= n items, two include files'),
    Harness(flow, order='random', quick={'n': 3, 'L': 14}, thorough={'n': 4, 'L': 30}, bounds='<= n items and a function'),
    Harness(recursion, order='random', quick={'n': 2, 'L': 14, 'outcomes': 3}, thorough={'n': 3, 'L': 25}, bounds='two mutually recursive functions'),
    Harness(models, order='random', quick={'n': 4, 'body': 2, 'L': 12}, thorough={'n': 4, 'body': 3, 'L': 24}, bounds='<= n statements, bodies <= body, limits 1..L'),
    Harness(structured, order='random', quick={'budget': 4, 'L': 20}, thorough={'budget': 6, 'L': 40}, bounds='<= budget nodes'),
]
QUICK_SECONDS = 75
