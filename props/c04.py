"""C04: scoping, calling convention and host globals behave as documented"""

from symx.harness import Harness
from props.common import gen, same, show, ref_type

BOUNDS = ('<= 3 parameters, <= 4 arguments of any of 6 types; programs of <= 3 (quick) / 4 (thorough) top-level statements and two functions of <= 2 / 3 statements over 2 variable '
          'names, 2 function names and 1 library name; 7 host-supplied values for 4 names')
ASSUMPTIONS = ['a name bound to null is not called (the property does not say whether that is "bound")', 'at most 40 reference steps per program; programs that run longer are outside the bound']

PNAMES = ('aa', 'bb', 'cc')


def ref_bind(params, last, args):
    """Local variables of a call"""
    out = {}
    for i, p in enumerate(params):
        if last and i == len(params) - 1:
            out[p] = list(args[i:])
        else:
            out[p] = args[i] if i < len(args) else None
    return out


def binding(ctx, bs):
    """Positional binding, missing and surplus arguments, trailing array; called from a script, from the host and through library callbacks"""
    np_ = ctx.choice('params', 4)
    na = ctx.choice('args', 5)
    last = np_ > 0 and ctx.flag('last')
    args = [gen(ctx, f'x{i}', ('int', 'null', 'str', 'list', 'bool', 'fn') if i < 2 else ('int', 'null'), depth=1, maxlen=1, strlen=1, alpha='aa', inner=('int',)) for i in range(na)]
    params = PNAMES[:np_]
    body = [{'return': {'expr': {'function': {'name': 'tuple', 'args': [{'variable': p} for p in params]}}}}]
    if ctx.flag('text'):
        text = 'function ff(' + ', '.join(params) + ('...' if last else '') + '):\n    return tuple(' + ', '.join(params) + ')\nendfunction\n'
        script = bs.parser.parse_script(text)
    else:
        fn = {'name': 'ff', 'statements': body}
        if params:
            fn['args'] = list(params)
        if last or ctx.flag('lastFalse'):
            fn['lastArgArray'] = last
        script = {'statements': [{'function': fn}]}
    got = []

    def tup(a, options):
        got.append(list(a))
        return 7

    via = ctx.pick('via', ('script', 'host', 'partial', 'array'))
    glob = {'tuple': tup, 'aa': 99, 'bb': 98}
    for i, a in enumerate(args):
        glob[f'v{i}'] = a
    names = [{'variable': f'v{i}'} for i in range(na)]
    options = {'globals': glob}
    if via == 'partial':
        ctx.assume(na >= 1)
        k = ctx.choice('bound', na) + 1
        calls = [{'expr': {'name': 'pp', 'expr': {'function': {'name': 'systemPartial', 'args': [{'variable': 'ff'}] + names[:k]}}}},
                 {'return': {'expr': {'function': {'name': 'pp', 'args': names[k:]}}}}]
    elif via == 'array':
        calls = [{'expr': {'name': 'qq', 'expr': {'variable': 'ff'}}}, {'return': {'expr': {'function': {'name': 'qq', 'args': names}}}}]
    else:
        call = {'name': 'ff', 'args': names}
        if na == 0 and ctx.flag('noargs'):
            del call['args']
        calls = [{'return': {'expr': {'function': call}}}]
    if via == 'host':
        bs.runtime.execute_script(script, options)
        res = glob['ff'](list(args), options)
    else:
        script = {'statements': script['statements'] + calls}
        res = bs.runtime.execute_script(script, options)
    want = ref_bind(params, last, args)
    ctx.reach(via)
    ctx.check(len(got) == 1, lambda: f'body ran {len(got)} times')
    ctx.check(same(got[0], [want[p] for p in params]), lambda: f'parameters {params} (last array: {last}) of {show(args)} via {via} bound to {show(got[0])}, expected {show(want)}')
    for p in params:
        if not (last and p == params[-1]):
            i = params.index(p)
            ctx.check(i >= len(args) or got[0][i] is args[i] or ref_type(args[i]) not in ('array', 'object'), lambda: 'argument copied')
    ctx.check(res == 7, lambda: f'call gives {show(res)}')
    ctx.check(same(glob['aa'], 99) and same(glob['bb'], 98) and 'cc' not in glob, 'a call changed global variables')


class Fuel(BaseException):
    pass


class Fn:
    def __init__(self, params, last, body):
        self.params = params
        self.last = last
        self.body = body


class HostFn:
    def __init__(self, value):
        self.value = value


class Ref:
    def __init__(self, ctx, glob, fuel):
        self.ctx = ctx
        self.g = glob
        self.fuel = fuel
        self.trace = []
        self.err = None

    def get(self, name, loc):
        if loc is not None and name in loc:
            return loc[name]
        return self.g.get(name)

    def expr(self, e, loc):
        k = e[0]
        if k == 'n':
            return e[1]
        if k == 'v':
            return self.get(e[1], loc)
        args = [self.expr(a, loc) for a in e[2]]
        bound = (loc is not None and e[1] in loc) or e[1] in self.g
        f = self.get(e[1], loc)
        self.ctx.assume(not bound or f is not None)
        if not bound:
            raise Undefined(e[1])
        if isinstance(f, Fn):
            return self.block(f.body, ref_bind(f.params, f.last, args))
        if isinstance(f, HostFn):
            return f.value
        return None

    def block(self, stmts, loc):
        for s in stmts:
            self.fuel -= 1
            if self.fuel < 0:
                raise Fuel()
            k = s[0]
            if k == 'set':
                v = self.expr(s[2], loc)
                if loc is None:
                    self.g[s[1]] = v
                else:
                    loc[s[1]] = v
            elif k == 'show':
                self.trace.append(self.get(s[1], loc))
            elif k == 'gset':
                self.g[s[1]] = self.expr(s[2], loc)
            elif k == 'gshow':
                self.trace.append(self.g.get(s[1]))
            elif k == 'def':
                self.g[s[1]] = Fn(s[2], s[3], s[4])
            elif k == 'return':
                return self.expr(s[1], loc)
        return None


class Undefined(Exception):
    pass


def model_expr(e):
    if e[0] == 'n':
        return {'number': e[1]}
    if e[0] == 'v':
        return {'variable': e[1]}
    return {'function': {'name': e[1], 'args': [model_expr(a) for a in e[2]]}}


def model(block):
    out = []
    for s in block:
        k = s[0]
        if k == 'set':
            out.append({'expr': {'name': s[1], 'expr': model_expr(s[2])}})
        elif k == 'show':
            out.append({'expr': {'expr': {'function': {'name': 'show', 'args': [{'variable': s[1]}]}}}})
        elif k == 'gset':
            out.append({'expr': {'expr': {'function': {'name': 'systemGlobalSet', 'args': [{'string': s[1]}, model_expr(s[2])]}}}})
        elif k == 'gshow':
            out.append({'expr': {'expr': {'function': {'name': 'show', 'args': [{'function': {'name': 'systemGlobalGet', 'args': [{'string': s[1]}]}}]}}}})
        elif k == 'def':
            fn = {'name': s[1], 'statements': model(s[4])}
            if s[2]:
                fn['args'] = list(s[2])
            if s[3]:
                fn['lastArgArray'] = True
            out.append({'function': fn})
        else:
            out.append({'return': {'expr': model_expr(s[1])}})
    return out


def text_expr(e):
    if e[0] == 'n':
        return str(e[1])
    if e[0] == 'v':
        return e[1]
    return e[1] + '(' + ', '.join(text_expr(a) for a in e[2]) + ')'


def text(block, pad=''):
    out = []
    for s in block:
        k = s[0]
        if k == 'set':
            out.append(f'{pad}{s[1]} = {text_expr(s[2])}')
        elif k == 'show':
            out.append(f'{pad}show({s[1]})')
        elif k == 'gset':
            out.append(f"{pad}systemGlobalSet('{s[1]}', {text_expr(s[2])})")
        elif k == 'gshow':
            out.append(f"{pad}show(systemGlobalGet('{s[1]}'))")
        elif k == 'def':
            out.append(f'{pad}function {s[1]}({", ".join(s[2])}{"..." if s[3] else ""}):')
            out.extend(text(s[4], pad + '    '))
            out.append(pad + 'endfunction')
        else:
            out.append(f'{pad}return {text_expr(s[1])}')
    return out


class Gen:
    def __init__(self, ctx, lib):
        self.ctx = ctx
        self.n = 0
        self.lib = lib

    def expr(self, calls=True):
        k = self.ctx.pick('e', ('n', 'v', 'call') if calls else ('n', 'v'))
        if k == 'n':
            self.n += 1
            return ('n', self.n)
        if k == 'v':
            return ('v', self.ctx.pick('ev', ('aa', 'bb', 'f1')))
        return ('call', self.ctx.pick('f', ('f1', 'f2', 'aa', self.lib)), [self.expr(False) for _ in range(self.ctx.choice('na', 3))])

    def stmt(self, top):
        k = self.ctx.pick('s', ('set', 'show', 'gset', 'gshow', 'return') if not top else ('set', 'show', 'def'))
        if k == 'set':
            return ('set', self.ctx.pick('t', ('aa', 'bb', 'f1', self.lib) if top else ('aa', 'bb')), self.expr())
        if k == 'show':
            return ('show', self.ctx.pick('t', ('aa', 'bb')))
        if k == 'gset':
            return ('gset', self.ctx.pick('t', ('aa', 'bb')), self.expr(False))
        if k == 'gshow':
            return ('gshow', self.ctx.pick('t', ('aa', 'bb')))
        if k == 'return':
            return ('return', self.expr(False))
        return self.fn(self.ctx.pick('t', ('f1', self.lib)), 1)

    def fn(self, name, size):
        params = self.ctx.pick('p', ((), ('aa',), ('aa', 'bb'), ('bb', 'aa'), ('bb',)))
        return ('def', name, params, bool(params) and self.ctx.flag('last'), [self.stmt(False) for _ in range(self.ctx.choice('size', size + 1))])


def ref_value(v):
    return 'fn' if isinstance(v, (Fn, HostFn)) else v


def shown(v):
    return 'fn' if ref_type(v) == 'function' else v


def like(a, b):
    """Real value against reference value (functions by being one)"""
    if isinstance(b, list) and isinstance(a, list):
        return len(a) == len(b) and all(like(x, y) for x, y in zip(a, b))
    return same(shown(a), ref_value(b))


def scopes(ctx, bs):
    """Programs with functions whose locals, parameters and globals share names"""
    p = ctx.params
    lib = 'jsonParse'      # null for every value these programs pass it
    g = Gen(ctx, lib)
    prog = [g.fn('f1', p['body']), g.fn('f2', p['body'])]
    prog += [g.stmt(True) for _ in range(ctx.choice('top', p['top']) + 1)]
    prog.append(('set', 'bb' if ctx.flag('lt') else 'r', ('call', ctx.pick('lf', ('f1', 'f2', lib)), [('v', 'aa')])))
    x = ctx.int('x', 0, 5)
    glob = {'aa': x}
    hostlib = ctx.flag('hostlib')
    hostfn = lambda args, options: 55     # noqa: E731
    if hostlib:
        glob[lib] = hostfn
    refg = {'aa': x, lib: HostFn(55) if hostlib else HostFn(None)}
    ref = Ref(ctx, refg, 40)
    err = None
    try:
        ref.block(prog, None)
    except Undefined as e:
        err = f'Undefined function "{e}"'
    except Fuel:
        ctx.assume(False)
    if not hostlib:
        glob.pop(lib, None)
    script = bs.parser.parse_script(text(prog)) if ctx.flag('text') else {'statements': model(prog)}
    trace = []
    glob['show'] = lambda args, options: trace.append(args[0])
    got_err = None
    options = {'globals': glob, 'maxStatements': 500}
    try:
        bs.runtime.execute_script(script, options)
    except bs.runtime.BareScriptRuntimeError as e:
        got_err = str(e)
    src = '\n'.join(text(prog))
    ctx.reach()
    ctx.check(got_err == err, lambda: f'raised {got_err!r}, expected {err!r}:\n{src}')
    ctx.check(len(trace) == len(ref.trace) and all(like(a, b) for a, b in zip(trace, ref.trace)),
              lambda: f'shows {show(trace)}, expected {show([ref_value(v) for v in ref.trace])} (a = {show(x)}):\n{src}')
    for name in ('aa', 'bb', 'r', 'f1', 'f2', lib, 'cc'):
        a, b = glob.get(name), refg.get(name)
        ctx.check((name in glob) == (name in refg), lambda: f'global {name} present: {name in glob}, expected {name in refg}:\n{src}')
        ctx.check(like(a, b), lambda: f'global {name} = {show(a)}, expected {show(ref_value(b))} (a = {show(x)}):\n{src}')
    if hostlib and isinstance(refg[lib], HostFn):
        ctx.check(glob[lib] is hostfn, 'the host function was replaced')
    ctx.check(options['globals'] is glob, 'the globals object was replaced')


NAMES = ('arrayLength', 'systemLog', 'mathAbs', 'myVar')


def hostglobals(ctx, bs):
    """The library joins the caller's globals without overwriting; script functions replace library functions"""
    glob = {}
    marks = {}
    for n in NAMES:
        k = ctx.choice(n, 5)
        if k:
            marks[n] = (None, 0, ctx.int('i', 1, 9), lambda args, options: 77)[k - 1]
            glob[n] = marks[n]
    name = ctx.pick('def', (None,) + NAMES)
    statements = []
    if name is not None:
        statements.append({'function': {'name': name, 'statements': [{'return': {'expr': {'number': 66.0}}}]}})
    call = ctx.pick('call', NAMES)
    arg = ctx.int('arg', -2, 2)
    glob['arg'] = arg
    statements.append({'return': {'expr': {'function': {'name': call, 'args': [{'variable': 'arg'}]}}}})
    ctx.assume(not (call in marks and marks[call] is None and name != call))
    logs = []
    err = None
    res = None
    options = {'globals': glob, 'logFn': logs.append}
    try:
        res = bs.runtime.execute_script({'statements': statements}, options)
    except bs.runtime.BareScriptRuntimeError as e:
        err = str(e)
    ctx.reach()
    if call == name:
        want = 66
    elif call in marks:
        want = 77 if callable(marks[call]) else None
    elif call == 'myVar':
        want = 'undefined'
    elif call == 'arrayLength':
        want = 0
    elif call == 'mathAbs':
        want = abs(arg)
    else:
        want = None
    if want == 'undefined':
        ctx.check(err == 'Undefined function "myVar"', lambda: f'{err} {show(res)}')
    else:
        ctx.check(err is None and same(res, want), lambda: f'{call}({show(arg)}) with globals {show(marks)}, script function {name}: {show(res)} {err}, expected {show(want)}')
    for n in NAMES:
        if n == name:
            ctx.check(callable(glob[n]) and (n not in marks or glob[n] is not marks[n]), lambda: f'{n} not rebound by the function statement')
        elif n in marks:
            ctx.check(glob[n] is marks[n], lambda: f'caller-supplied {n} overwritten')
        elif n != 'myVar':
            ctx.check(callable(glob.get(n)), lambda: f'library function {n} missing')
        else:
            ctx.check(n not in glob, lambda: f'{n} appeared')
    ctx.check(options['globals'] is glob, 'globals object replaced')


def builtins(ctx, bs):
    """Expression mode: locals, then globals, then the built-ins"""
    name = ctx.pick('name', ('abs', 'len', 'max', 'notBuiltin'))
    x = ctx.int('x', -3, 3)
    lk, gk = ctx.pick('l', ('none', 'fn', 'other', 'nolocals')), ctx.pick('g', ('none', 'fn', 'other', 'noglobals', 'nooptions'))
    loc = None if lk == 'nolocals' else {'x': x} if lk == 'none' else {'x': x, name: (lambda args, options: 11) if lk == 'fn' else ctx.int('lo', 1, 2)}
    glob = {'x': x} if gk in ('none', 'noglobals', 'nooptions') else {'x': x, name: (lambda args, options: 22) if gk == 'fn' else ctx.int('go', 1, 2)}
    options = None if gk == 'nooptions' else {} if gk == 'noglobals' else {'globals': glob}
    use = ctx.choice('builtins', 3)
    expr = {'function': {'name': name, 'args': [{'variable': 'x'}]}}
    xv = x if (loc is not None or gk not in ('noglobals', 'nooptions')) else None
    err = None
    res = None
    try:
        if use == 0:
            res = bs.runtime.evaluate_expression(expr, options, loc, False)
        elif use == 1:
            res = bs.runtime.evaluate_expression(expr, options, loc, True)
        else:
            res = bs.runtime.evaluate_expression(expr, options, loc)
    except bs.runtime.BareScriptRuntimeError as e:
        err = str(e)
    ctx.reach()
    if lk == 'fn':
        want = 11
    elif lk == 'other':
        want = None
    elif gk == 'fn':
        want = 22
    elif gk == 'other':
        want = None
    elif use == 0 or name == 'notBuiltin':
        ctx.check(err == f'Undefined function "{name}"', lambda: f'{name}: {err} {show(res)}')
        return
    elif name == 'abs':
        want = None if xv is None else abs(xv)
    elif name == 'len':
        want = 0
    else:
        want = xv
    ctx.check(err is None and same(res, want), lambda: f'{name}({show(xv)}) locals {lk} globals {gk} builtins {use}: {show(res)} {err}, expected {show(want)}')


def runs(ctx, bs):
    """What one run binds does not reach another run with other globals, nor the library"""
    name = ctx.pick('name', ('abs', 'len', 'max', 'mathAbs', 'arrayLength', 'if', 'myVar'))
    bind = ctx.pick('bind', ('function', 'assign', 'globalSet', 'param', 'local', 'caller', 'include'))
    x = ctx.int('x', -3, 3)
    mine = {'function': {'name': name, 'args': ['vv'], 'statements': [{'return': {'expr': {'number': 66.0}}}]}}
    g1 = {'x': x, 'mine': lambda args, options: 66}
    files = {'a.bare': f'function {name}(vv):\n    return 66\nendfunction\n'}
    first = {
        'function': [mine], 'assign': [{'expr': {'name': name, 'expr': {'variable': 'mine'}}}],
        'globalSet': [{'expr': {'expr': {'function': {'name': 'systemGlobalSet', 'args': [{'string': name}, {'variable': 'mine'}]}}}}],
        'param': [{'function': {'name': 'ff', 'args': [name], 'statements': [{'return': {'expr': {'function': {'name': name, 'args': [{'variable': 'x'}]}}}}]}},
                  {'expr': {'expr': {'function': {'name': 'ff', 'args': [{'variable': 'mine'}]}}}}],
        'local': [{'function': {'name': 'ff', 'statements': [{'expr': {'name': name, 'expr': {'variable': 'mine'}}}]}}, {'expr': {'expr': {'function': {'name': 'ff'}}}}],
        'caller': [], 'include': [{'include': {'includes': [{'url': 'a.bare'}]}}]
    }[bind]
    if bind == 'caller':
        g1[name] = g1['mine']
    call = {'function': {'name': name, 'args': [{'variable': 'x'}]}}
    if ctx.flag('use'):
        first = first + [{'expr': {'expr': call}}] if bind not in ('param', 'local') else first
    err = None
    try:
        bs.runtime.execute_script({'statements': first}, {'globals': g1, 'fetchFn': lambda request: files[request['url']]})
    except bs.runtime.BareScriptRuntimeError as e:
        err = str(e)
    ctx.check(err is None or name == 'myVar', lambda: f'{err}')
    ctx.reach(bind)
    mode = ctx.pick('mode', ('expression', 'noglobals', 'script', 'fresh'))
    g2 = {'x': x}
    err = res = None
    try:
        if mode == 'expression':
            res = bs.runtime.evaluate_expression(call, {'globals': g2})
        elif mode == 'noglobals':
            res = bs.runtime.evaluate_expression(call, None, g2)
        elif mode == 'script':
            res = bs.runtime.execute_script({'statements': [{'return': {'expr': call}}]}, {'globals': g2})
        else:
            res = bs.runtime.execute_script({'statements': [{'expr': {'name': 'x', 'expr': {'number': 2.0}}}, {'return': {'expr': call}}]})
    except bs.runtime.BareScriptRuntimeError as e:
        err = str(e)
    builtin = mode in ('expression', 'noglobals')
    if name in ('abs', 'len', 'max') and builtin or name in ('mathAbs', 'arrayLength') and not builtin:
        want = {'abs': abs(x), 'mathAbs': abs(x) if mode != 'fresh' else 2, 'len': 0, 'arrayLength': 0, 'max': x}[name]
    elif name == 'if':
        want = None
    else:
        ctx.check(err == f'Undefined function "{name}"', lambda: f'{name} bound by {bind} in another run, then called in {mode}: {show(res)} {err}')
        return
    ctx.check(err is None and same(res, want), lambda: f'{name}({show(x)}) in {mode} after another run bound it by {bind}: {show(res)} {err}, expected {show(want)}')


def shadow(ctx, bs):
    """One name, with values of every type, as global, parameter and local; a second function looks at the globals"""
    name = ctx.pick('name', ('aa', 'a', '__x', 'stringLength', 'abs', 'len', 'globals', 'this', 'Null'))
    vals = [gen(ctx, f'v{i}', maxlen=1, strlen=1, alpha='ab') for i in range(2)]
    glob = {'v0': vals[0], 'v1': vals[1]}
    present = ctx.flag('present')
    lib = name == 'stringLength'
    old = vals[0] if present else None
    if present:
        glob[name] = vals[0]
    param = ctx.flag('param')
    body, want = [], []
    locvar = param
    cur = vals[ctx.choice('arg', 2)] if param else None
    argname = 'v0' if cur is vals[0] else 'v1'
    gl = old
    given = param and ctx.flag('given')
    if param and not given:
        cur = None
    hidden = lib and not present     # the library function itself, not compared
    for i in range(ctx.choice('n', ctx.params['n']) + 1):
        k = ctx.pick(f's{i}', ('show', 'set', 'self', 'for', 'index', 'gset', 'other', 'otherset', 'if'))
        j = ctx.choice(f'j{i}', 2) if k in ('set', 'gset', 'for', 'if') else 0
        if k == 'show':
            body.append(f'show({name})')
            want.append('lib' if not locvar and hidden else cur if locvar else gl)
        elif k == 'set':
            body.append(f'{name} = v{j}')
            locvar, cur = True, vals[j]
        elif k == 'self':
            body.append(f'{name} = {name}')
            ctx.assume(locvar or not hidden)
            cur = cur if locvar else gl
            locvar = True
        elif k == 'for':
            body += [f'for {name} in arrayNew(v{j}):', 'endfor']
            locvar, cur = True, vals[j]
        elif k == 'index':
            body += [f'for zz, {name} in arrayNew(1):', f'show({name})', 'break', 'endfor']
            locvar, cur = True, 0
            want.append(0)
        elif k == 'gset':
            body.append(f"systemGlobalSet('{name}', v{j})")
            gl, hidden = vals[j], False
        elif k == 'other':
            body.append('other()')
            want.append('lib' if hidden else gl)
        elif k == 'otherset':
            body.append('otherset(1)')
            want.append(1)
        else:
            body += ['if true:', f'{name} = v{j}', 'endif']
            locvar, cur = True, vals[j]
    lines = ['function other():', f'show({name})', 'endfunction', 'function otherset(zz):', f'{name} = zz', f'show({name})', 'endfunction',
             f'function ff({name if param else ""}):', *body, f'return {name}', 'endfunction', f'res = ff({argname if given else ""})', f'show({name})']
    if ctx.flag('top'):
        lines += [f'{name} = v1', 'other()']
        tail = [('lib' if hidden else gl), vals[1]]
        last = vals[1]
    else:
        tail = [('lib' if hidden else gl)]
        last = 'lib' if hidden else gl
    ret = 'lib' if not locvar and hidden else cur if locvar else gl
    trace = []
    glob['show'] = lambda args, options: trace.append(args[0])
    want += tail
    bs.runtime.execute_script(bs.parser.parse_script('\n'.join(lines)), {'globals': glob, 'maxStatements': 200})
    ctx.reach()

    def eq(a, b):
        return callable(a) if isinstance(b, str) and b == 'lib' else a is b or same(a, b)

    ctx.check(len(trace) == len(want) and all(eq(a, b) for a, b in zip(trace, want)), lambda: f'shows {show(trace)}, expected {show(want)}; values {show(vals)}, global {"v0" if present else "unset"}:\n' + '\n'.join(lines))
    ctx.check(eq(glob['res'], ret), lambda: f'returned {show(glob["res"])}, expected {show(ret)}; values {show(vals)}:\n' + '\n'.join(lines))
    if last is not None:
        ctx.check(eq(glob.get(name), last), lambda: f'global {name} = {show(glob.get(name))}, expected {show(last)}:\n' + '\n'.join(lines))
    else:
        ctx.check(glob.get(name) is None, lambda: f'global {name} = {show(glob.get(name))} appeared:\n' + '\n'.join(lines))
    ctx.check('zz' not in glob, lambda: 'a loop variable of a function became global:\n' + '\n'.join(lines))


HARNESSES = [
    Harness(shadow, weight=1.5, order='random', quick={'n': 3}, thorough={'n': 5}, bounds='9 names, values of every type, <= n statements in the function'),
    Harness(runs, weight=0.7, bounds='7 names, 7 ways to bind, 4 second runs'),
    Harness(binding, order='random', bounds='<= 3 parameters, <= 4 arguments'),
    Harness(scopes, weight=3, order='random', quick={'body': 2, 'top': 2}, thorough={'body': 3, 'top': 3}, bounds='see BOUNDS'),
    Harness(hostglobals, bounds='4 names x 5 host bindings'),
    Harness(builtins, weight=0.5, bounds='4 names x 4 x 5 bindings'),
]
QUICK_SECONDS = 75
