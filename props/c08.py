"""C08: jump-level models execute by the documented statement semantics"""

from symx.harness import Harness
from props.common import same, show, snapshot, ident, ref_truthy, gen
from props.evalref import ref_binop

BOUNDS = ('hand-built models: statement lists of <= 4 (quick) / 5 (thorough) statements of 8 kinds with symbolic label names and symbolic condition values, plus two function bodies of '
          '<= 2 / 3 statements (one may hold a nested function); <= 25 statements per run; every model is run three times on two symbolic inputs; parsed texts of <= 5 jump-level lines; functions as values: <= 4 / 6 statements over 4 symbolic names, bound before or not')
ASSUMPTIONS = ['a jump continues after the label, so the label statement itself does not count as started', 'conditions are symbolic integers, strings, booleans, null or empty arrays held in variables']

LIMIT = 25
LABELS = 'ab'


class Stop(Exception):
    pass


class Machine:
    """Small-step reading of a model; works on the model itself"""

    def __init__(self, glob, limit=None):
        self.g = glob
        self.limit = LIMIT if limit is None else limit
        self.count = 0
        self.trace = []
        self.fns = {}

    def get(self, name, loc):
        if loc is not None and name in loc:
            return loc[name]
        return self.g.get(name)

    def expr(self, e, loc):
        if 'number' in e:
            return e['number']
        if 'string' in e:
            return e['string']
        if 'group' in e:
            return self.expr(e['group'], loc)
        if 'variable' in e:
            return self.get(e['variable'], loc)
        if 'unary' in e:
            return not ref_truthy(self.expr(e['unary']['expr'], loc))
        if 'binary' in e:
            a, b = self.expr(e['binary']['left'], loc), self.expr(e['binary']['right'], loc)
            return ref_binop('+', a, b)
        name = e['function']['name']
        args = [self.expr(a, loc) for a in e['function'].get('args', ())]
        if name == 'log':
            self.trace.append(args[0])
            return None
        if name not in self.fns:
            raise Stop(f'Undefined function "{name}"')
        fn = self.fns[name]
        inner = {}
        names = fn.get('args', ())
        for i, p in enumerate(names):
            inner[p] = args[i] if i < len(args) else None
            if i == len(names) - 1 and fn.get('lastArgArray'):
                inner[p] = args[i:]
        return self.run(fn['statements'], inner)

    def run(self, statements, loc):
        i = 0
        while i < len(statements):
            s = statements[i]
            self.count += 1
            if self.count > self.limit:
                raise Stop(f'Exceeded maximum script statements ({self.limit})')
            if 'expr' in s:
                v = self.expr(s['expr']['expr'], loc)
                if 'name' in s['expr']:
                    (self.g if loc is None else loc)[s['expr']['name']] = v
            elif 'jump' in s:
                j = s['jump']
                if 'expr' not in j or ref_truthy(self.expr(j['expr'], loc)):
                    for k, t in enumerate(statements):
                        if 'label' in t and t['label'] == j['label']:
                            i = k
                            break
                    else:
                        raise Stop('Unknown jump label')
            elif 'return' in s:
                return self.expr(s['return']['expr'], loc) if 'expr' in s['return'] else None
            elif 'function' in s:
                self.fns[s['function']['name']] = s['function']
                self.g[s['function']['name']] = '<function>'
            i += 1
        return None


def cond(ctx, tag):
    return ctx.pick('c' + tag, ({'variable': 'q'}, {'unary': {'op': '!', 'expr': {'variable': 'q'}}}, {'variable': 'x'}, {'group': {'variable': 'r'}}, {'function': {'name': 'ff', 'args': []}})[:5 if ctx.params.get('body') else 4])


def statement(ctx, kinds, n):
    k = ctx.pick('k', kinds)
    if k == 'log':
        return {'expr': {'expr': {'function': {'name': 'log', 'args': [{'string': f'L{n}'}]}}}}
    if k == 'logx':
        return {'expr': {'expr': {'function': {'name': 'log', 'args': [{'variable': 'x'}]}}}}
    if k == 'set':
        return {'expr': {'name': 'x', 'expr': {'variable': 'r'} if ctx.flag('r') else {'binary': {'op': '+', 'left': {'variable': 'x'}, 'right': {'number': 1}}}}}
    if k == 'jump':
        return {'jump': {'label': ctx.str(f'j{n}', 1, LABELS)}}
    if k == 'jumpif':
        return {'jump': {'label': ctx.str(f'j{n}', 1, LABELS), 'expr': cond(ctx, 'j')}}
    if k == 'label':
        return {'label': ctx.str(f'l{n}', 1, LABELS)}
    if k == 'return':
        return {'return': {}} if ctx.flag('bare') else {'return': {'expr': {'variable': 'x'}}}
    if k == 'call':
        f = {'name': ctx.pick('f', ('ff', 'gg'))}
        if ctx.flag('arg'):
            f['args'] = [{'variable': 'r'}]
        s = {'expr': {'expr': {'function': f}}}
        if ctx.flag('to'):
            s['expr']['name'] = 'x'
        return s
    if k == 'fn':
        fn = {'name': ctx.pick('f', ('ff', 'gg'))}
        if ctx.flag('args'):
            fn['args'] = ['x']
            if ctx.flag('last'):
                fn['lastArgArray'] = ctx.flag('lastv')
        fn['statements'] = []
        return {'function': fn}
    raise ValueError(k)


def listing(model):
    return show(model['statements'])


def inputs(ctx, tag):
    return {'q': ctx.int('q' + tag, 0, 1), 'r': gen(ctx, 'r' + tag, ('int', 'str', 'null', 'list'), depth=1, maxlen=1, strlen=1, alpha='zz', lo=0, hi=1, inner=('null',)), 'x': ctx.int('x' + tag, 0, 1)}


def observe(bs, model, vals, limit=LIMIT):
    trace = []
    g = dict(vals)
    g['log'] = lambda args, options: trace.append(args[0])
    options = {'globals': g, 'maxStatements': limit}
    err = res = None
    try:
        res = bs.runtime.execute_script(model, options)
    except bs.runtime.BareScriptRuntimeError as e:
        err = str(e)
    return res, err, trace, g, options['statementCount']


def compare(ctx, bs, model, vals, which):
    before = snapshot(model)
    m = Machine(dict(vals))
    want = werr = None
    try:
        want = m.run(model['statements'], None)
    except Stop as e:
        werr = str(e)
    res, err, trace, g, count = observe(bs, model, vals)
    if werr == 'Unknown jump label':
        ctx.check(err is not None and err[:19] == werr + ' ', lambda: f'run {which}: error {err!r}, expected {werr}: {listing(model)} with {show(vals)}')
    else:
        ctx.check(err == werr, lambda: f'run {which}: error {err!r}, expected {werr!r}: {listing(model)} with {show(vals)}')
    ctx.check(len(trace) == len(m.trace) and all(same(a, b) for a, b in zip(trace, m.trace)), lambda: f'run {which}: output {show(trace)}, expected {show(m.trace)}: {listing(model)} with {show(vals)}')
    ctx.check(same(res, want), lambda: f'run {which}: result {show(res)}, expected {show(want)}: {listing(model)} with {show(vals)}')
    ctx.check(same(g['x'], m.g['x']), lambda: f'run {which}: x is {show(g["x"])}, expected {show(m.g["x"])}: {listing(model)} with {show(vals)}')
    for f in ('ff', 'gg'):
        ctx.check((f in g) == (f in m.fns), lambda: f'run {which}: function {f} bound: {f in g}: {listing(model)}')
    ctx.check(count == m.count, lambda: f'run {which}: {count} statements started, expected {m.count}: {listing(model)} with {show(vals)}')
    ctx.check(ident(model, before), lambda: f'run {which} changed the model: {listing(before)} became {listing(model)}')
    ctx.reach('unknown label' if werr == 'Unknown jump label' else 'limit' if werr and werr[0] == 'E' else 'error' if werr else 'done')


def three(ctx, bs, model):
    a = inputs(ctx, 'a')
    b = inputs(ctx, 'b') if ctx.params.get('two') else a
    compare(ctx, bs, model, a, 1)
    compare(ctx, bs, model, b, 2)
    if b is not a:
        compare(ctx, bs, model, a, 3)


def flat(ctx, bs):
    """Statement lists without functions"""
    n = ctx.choice('n', ctx.params['n']) + 1
    three(ctx, bs, {'statements': [statement(ctx, ('log', 'label', 'jumpif', 'jump', 'return', 'set'), i) for i in range(n)]})


def pairs(ctx, bs):
    """Many jumps to many labels, each taken or not, run again with other inputs"""
    n = ctx.params['n']
    order = ctx.pick('order', ('apart', 'back', 'cross'))
    out = []
    for i in range(n):
        jump = {'label': 'l' + str(i), 'expr': {'variable': f'q{i}'}} if ctx.flag(f'if{i}') else {'label': 'l' + str(i)}
        out.append([{'jump': jump}, {'expr': {'expr': {'function': {'name': 'log', 'args': [{'string': f'L{i}'}]}}}}, {'label': f'l{i}'}])
    if order == 'apart':
        statements = [s for t in out for s in t]
    elif order == 'back':       # the labels come first, and the end is jumped to from each
        statements = [s for t in out for s in t] + [{'jump': {'label': 'l0', 'expr': {'variable': 'again'}}}, {'return': {'expr': {'variable': 'x'}}}]
    else:
        statements = [t[0] for t in out] + [s for t in out for s in t[1:]]
    model = {'statements': statements}
    if ctx.flag('fn'):
        model = {'statements': [{'function': {'name': 'ff', 'statements': statements}}, {'expr': {'expr': {'function': {'name': 'ff'}}}}, {'expr': {'expr': {'function': {'name': 'ff'}}}}]}
    a = {f'q{i}': ctx.int(f'q{i}', 0, 1) for i in range(n)}
    b = {f'q{i}': 1 - a[f'q{i}'] for i in range(n)}
    for v in (a, b):
        v['again'], v['x'] = ctx.int('again', 0, 1), 7
    compare(ctx, bs, model, a, 1)
    compare(ctx, bs, model, b, 2)


def functions(ctx, bs):
    """With function statements anywhere, jumps and labels inside bodies, recursion"""
    three(ctx, bs, {'statements': anywhere(ctx)})


def anywhere(ctx):
    n = ctx.choice('n', ctx.params['n']) + 1
    out = []
    for i in range(n):
        s = statement(ctx, ('fn', 'call', 'label', 'jumpif', 'logx', 'return', 'set'), i)
        if 'function' in s:
            for j in range(ctx.choice('nb', ctx.params['body'] + 1)):
                t = statement(ctx, ('jumpif', 'label', 'logx', 'call', 'return', 'set', 'jump', 'fn'), 10 * (i + 1) + j)
                if 'function' in t:
                    t['function']['statements'] = [statement(ctx, ('logx', 'return', 'set', 'jump'), 100 * (i + 1) + j)]
                s['function']['statements'].append(t)
        out.append(s)
    return out


def invoked(ctx, bs):
    """One function called again and again: label look-ups belong to one invocation and one body"""
    body1 = [statement(ctx, ('label', 'jumpif', 'logx', 'set', 'return'), 10 + i) for i in range(ctx.params['body'])]
    body2 = [statement(ctx, ('label', 'jumpif', 'logx', 'call'), 20 + i) for i in range(2)]
    fns = [{'function': {'name': 'ff', 'args': ['q'], 'statements': body1}}, {'function': {'name': 'gg', 'args': ['x'], 'statements': body2}}]
    rest = [statement(ctx, ('label', 'jumpif', 'call', 'logx'), i) for i in range(ctx.params['n'])]
    three(ctx, bs, {'statements': fns + rest})


class Fn:
    """A script function of the reference machine"""

    def __init__(self, fn):
        self.fn = fn


class Names(Machine):
    """Functions are values held by names: statements bind globals, calls and reads see locals first"""

    def expr(self, e, loc):
        if 'function' not in e or e['function']['name'] == 'log':
            return super().expr(e, loc)
        name = e['function']['name']
        args = [self.expr(a, loc) for a in e['function'].get('args', ())]
        fn = self.get(name, loc)
        if fn is None:
            raise Stop(f'Undefined function "{name}"')
        if isinstance(fn, Fn):
            inner = {p: args[i] if i < len(args) else None for i, p in enumerate(fn.fn.get('args', ()))}
            return self.run(fn.fn['statements'], inner)
        if fn == 'host':
            self.trace.append('called')
            return 50 + len(args)
        if fn == 'lib':
            return args[0] if args and not isinstance(args[0], (str, Fn)) and args[0] is not None else None
        return None             # not a function: the call fails

    def run(self, statements, loc):
        for s in statements:
            self.count += 1
            if self.count > self.limit:
                raise Stop(f'Exceeded maximum script statements ({self.limit})')
            if 'function' in s:
                self.g[s['function']['name']] = Fn(s['function'])
            elif 'return' in s:
                return self.expr(s['return']['expr'], loc) if 'expr' in s['return'] else None
            else:
                v = self.expr(s['expr']['expr'], loc)
                if 'name' in s['expr']:
                    (self.g if loc is None else loc)[s['expr']['name']] = v
        return None


FNAMES = ('f', 'h', 'g', 'mathAbs')


def any_name(ctx, tag):
    return 'mathAbs' if ctx.params.get('lib') and ctx.flag(tag + '.lib') else ctx.str(tag, 1, 'fgh')


def name_statement(ctx, n, depth):
    k = ctx.pick(f'k{n}', ('fn', 'call', 'set', 'read', 'return') if depth else ('fn', 'call', 'set', 'read'))
    name = any_name(ctx, f'n{n}')
    if k == 'read':
        return {'expr': {'expr': {'function': {'name': 'log', 'args': [{'variable': name}]}}}}
    if k == 'set':
        return {'expr': {'name': name, 'expr': {'variable': any_name(ctx, f'v{n}')} if ctx.flag(f'var{n}') else {'number': ctx.int(f'i{n}', 0, 99)}}}
    if k == 'return':
        return {'return': {'expr': {'variable': name}}}
    if k == 'call':
        e = {'function': {'name': name}}
        if ctx.flag(f'arg{n}'):
            e['function']['args'] = [{'variable': any_name(ctx, f'v{n}')} if ctx.flag(f'var{n}') else {'number': ctx.int(f'i{n}', 0, 99)}]
        return {'expr': {'expr': {'function': {'name': 'log', 'args': [e]}}}} if ctx.flag(f'shown{n}') else {'expr': {'name': any_name(ctx, f't{n}'), 'expr': e}}
    fn = {'name': name, 'statements': []}
    if ctx.flag(f'args{n}'):
        fn['args'] = [any_name(ctx, f'p{n}')]
    if depth < 2:
        fn['statements'] = [name_statement(ctx, 10 * n + j, depth + 1) for j in range(1, ctx.choice(f'nb{n}', ctx.params['body'] + 1) + 1)]
    if not fn['statements']:
        fn['statements'] = [{'return': {'expr': {'number': ctx.int(f'i{n}', 0, 99)}}}]
    return {'function': fn}


def kind_of(v):
    return '<function>' if callable(v) or isinstance(v, Fn) or v in ('host', 'lib') else v


def names(ctx, bs):
    """Function statements for names that are bound already, at the top or inside a body, then calls and reads"""
    model = {'statements': [name_statement(ctx, i, 0) for i in range(1, ctx.params['n'] + 1)]}
    if ctx.flag('again'):
        model['statements'] += model['statements'][:1]
    before = snapshot(model)
    prior = ctx.choice('prior', 3)
    for run in (1, 2):
        mg = {'h': 'host', 'mathAbs': 'lib'}
        trace = []

        def host(args, options):
            trace.append('called')
            return 50 + len(args)
        g = {'h': host, 'log': lambda args, options: trace.append(kind_of(args[0]))}
        if prior == 1:
            g['f'], mg['f'] = host, 'host'
        elif prior == 2:
            g['f'], mg['f'] = 7, 7
        m = Names(mg)
        want = werr = res = err = None
        try:
            want = m.run(model['statements'], None)
        except Stop as e:
            werr = str(e)
        options = {'globals': g, 'maxStatements': LIMIT}
        try:
            res = bs.runtime.execute_script(model, options)
        except bs.runtime.BareScriptRuntimeError as e:
            err = str(e)
        ctx.reach('error' if werr else 'done')
        ctx.check(err == werr, lambda: f'run {run}: error {err!r}, expected {werr!r}: {listing(model)}')
        got = [kind_of(v) for v in m.trace]
        ctx.check(len(trace) == len(got) and all(same(a, b) for a, b in zip(trace, got)), lambda: f'run {run}: output {show(trace)}, expected {show(got)}: {listing(model)}')
        ctx.check(same(kind_of(res), kind_of(want)), lambda: f'run {run}: result {show(res)}, expected {show(kind_of(want))}: {listing(model)}')
        for f in FNAMES:
            a, b = kind_of(g.get(f)), kind_of(m.g.get(f))
            ctx.check(same(a, b), lambda: f'run {run}: global {f} is {show(a)}, expected {show(b)}: {listing(model)}')
        ctx.check(ident(model, before), lambda: f'run {run} changed the model: {listing(before)} became {listing(model)}')


def parsed(ctx, bs):
    """Jump-level text: the parsed model runs like the lines read"""
    lines = []
    stm = []
    for i in range(ctx.choice('n', ctx.params['n']) + 1):
        s = statement(ctx, ('log', 'label', 'jumpif', 'jump', 'return', 'set', 'call', 'logx'), i)
        stm.append(s)
        lines.append(text_of(s))
    fn = {'name': 'ff', 'args': ['x', 'q'], 'statements': [statement(ctx, ('label', 'jumpif', 'return', 'logx'), 10 + i) for i in range(2)]}
    text = ['function ff(x, q):'] + [text_of(s) for s in fn['statements']] + ['endfunction'] + lines
    model = {'statements': [{'function': fn}] + stm}
    got = bs.parser.parse_script('\n'.join(text))
    vals = inputs(ctx, 'a')
    m = Machine(dict(vals))
    want = werr = None
    try:
        want = m.run(model['statements'], None)
    except Stop as e:
        werr = str(e)
    before = snapshot(got)
    res, err, trace, g, count = observe(bs, got, vals)
    ctx.reach()
    src = '\n'.join(text)
    ctx.check(err == werr or werr == 'Unknown jump label' and err is not None and err[:18] == werr, lambda: f'error {err!r}, expected {werr!r}:\n{src}')
    ctx.check(len(trace) == len(m.trace) and all(same(a, b) for a, b in zip(trace, m.trace)), lambda: f'output {show(trace)}, expected {show(m.trace)}:\n{src}')
    ctx.check(same(res, want) and same(g['x'], m.g['x']) and count == m.count, lambda: f'result {show(res)} x {show(g["x"])} count {count}, expected {show(want)} {show(m.g["x"])} {m.count}:\n{src}')
    ctx.check(ident(got, before), lambda: f'the run changed the model:\n{src}')


def expr_text(e):
    if 'variable' in e:
        return e['variable']
    if 'string' in e:
        return f"'{e['string']}'"
    if 'number' in e:
        return str(e['number'])
    if 'group' in e:
        return '(' + expr_text(e['group']) + ')'
    if 'unary' in e:
        return '!' + expr_text(e['unary']['expr'])
    if 'binary' in e:
        return expr_text(e['binary']['left']) + ' + ' + expr_text(e['binary']['right'])
    return e['function']['name'] + '(' + ', '.join([expr_text(a) for a in e['function'].get('args', ())]) + ')'


def text_of(s):
    if 'expr' in s:
        return (s['expr']['name'] + ' = ' if 'name' in s['expr'] else '') + expr_text(s['expr']['expr'])
    if 'label' in s:
        return s['label'] + ':'
    if 'jump' in s:
        return ('jumpif (' + expr_text(s['jump']['expr']) + ') ' if 'expr' in s['jump'] else 'jump ') + s['jump']['label']
    return 'return' + (' ' + expr_text(s['return']['expr']) if 'expr' in s['return'] else '')


HARNESSES = [
    Harness(flat, weight=1.5, order='random', strata=3, quick={'n': 4, 'two': True}, thorough={'n': 5}, bounds='<= n statements'),
    Harness(functions, weight=1.5, order='random', quick={'n': 4, 'body': 2, 'two': True}, thorough={'n': 4, 'body': 3}, bounds='<= n statements, bodies <= body'),
    Harness(pairs, order='random', quick={'n': 4}, thorough={'n': 6}, bounds='n jumps to n labels'),
    Harness(invoked, order='random', quick={'n': 3, 'body': 3}, thorough={'n': 4, 'body': 3, 'two': True}, bounds='two functions and n statements'),
    Harness(names, order='random', quick={'n': 4, 'body': 2, 'lib': True}, thorough={'n': 6, 'body': 3, 'lib': True}, bounds='n statements over 4 names, bodies <= body, two deep'),
    Harness(parsed, order='random', quick={'n': 4}, thorough={'n': 5}, bounds='<= n lines and a function'),
]
QUICK_SECONDS = 75
