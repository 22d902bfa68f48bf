"""C18: lint is pure, never fails, and its warnings are justified"""

import os
import re

from symx.harness import Harness
from props.common import show, same, snapshot, ident, gen
from props import prog as P

BOUNDS = ('hand-built models: global lists of <= 4 statements, two function bodies of <= 4 and a nested body of <= 2 statements, symbolic label, variable, argument and function names, expressions two levels deep; '
          'runs of <= 60 statements on symbolic inputs before and after the edit; structured programs of <= 5 / 7 nodes; the seven shipped scripts with one statement dropped, doubled or moved')
ASSUMPTIONS = ['warnings are recognised by their documented texts', 'whether two functions of one name in different statement lists are a redefinition is left open (functions are global, their lists are not)',
               'runs ended by the statement limit are not compared (an edit may change the number of statements)']

LIMIT = 60
UNKNOWN = re.compile(r'^Unknown (?:global )?label "(.*?)"(?: in function "(.*?)")? \(index (\d+)\)$')
UNUSED_LABEL = re.compile(r'^Unused (?:global )?label "(.*?)"(?: in function "(.*?)")? \(index (\d+)\)$')
RE_LABEL = re.compile(r'^Redefinition of (?:global )?label "(.*?)"(?: in function "(.*?)")? \(index (\d+)\)$')
RE_FUNCTION = re.compile(r'^Redefinition of function "(.*?)" \(index (\d+)\)$')
RE_ARG = re.compile(r'^Duplicate argument "(.*?)" of function "(.*?)" \(index (\d+)\)$')
UNUSED_VAR = re.compile(r'^Unused variable "(.*?)" defined in function "(.*?)" \(index (\d+)\)$')
UNUSED_ARG = re.compile(r'^Unused argument "(.*?)" of function "(.*?)" \(index (\d+)\)$')
POINTLESS = re.compile(r'^Pointless (?:global )?statement(?: in function "(.*?)")? \(index (\d+)\)$')


def lint(ctx, bs, model, text=None):
    """Warnings, after the purity checks"""
    before = snapshot(model)
    text = text or (lambda: show(model))
    try:
        first = bs.model.lint_script(model)
    except Exception as e:      # pylint: disable=broad-exception-caught
        ctx.fail(f'lint_script raised {type(e).__name__}: {e}: {text()}')
    ctx.check(type(first) is list and all(isinstance(w, str) for w in first), lambda: f'lint_script gives {first!r}: {text()}')
    ctx.check(ident(model, before), lambda: f'lint_script changed the model: {show(before)} became {text()}')
    again = bs.model.lint_script(model)
    ctx.check(len(first) == len(again) and all(a == b for a, b in zip(first, again)), lambda: f'lint_script gives {show(first)}, then {show(again)}: {text()}')
    return first


def scopes_of(model):
    """[(function name or None, function or None, statements)]"""
    out = [(None, None, model['statements'])]
    i = 0
    while i < len(out):
        for s in out[i][2]:
            if 'function' in s:
                out.append((s['function']['name'], s['function'], s['function']['statements']))
        i += 1
    return out


def add(names, x):
    if not any(x == y for y in names):
        names.append(x)


def label_facts(statements):
    """(unknown, doubled) label names of one scope"""
    defined, doubled, unknown = [], [], []
    for s in statements:
        if 'label' in s:
            if any(s['label'] == d for d in defined):
                add(doubled, s['label'])
            else:
                defined.append(s['label'])
    for s in statements:
        if 'jump' in s and not any(s['jump']['label'] == d for d in defined):
            add(unknown, s['jump']['label'])
    return unknown, doubled


def matches(warnings, regex):
    return [m.groups() for m in (regex.match(w) for w in warnings) if m is not None]


def same_set(a, b):
    return all(any(x == y for y in b) for x in a) and all(any(x == y for y in a) for x in b)


def exact(ctx, bs, model, warnings, text=None):
    """The unknown-label and redefinition warnings are exact"""
    text = text or (lambda: show(model))
    scopes = scopes_of(model)
    unknown, doubled, args, anywhere, local = [], [], [], [], []
    names = []
    for name, fn, statements in scopes:
        u, d = label_facts(statements)
        unknown.extend((x, name) for x in u)
        doubled.extend((x, name) for x in d)
        here = []
        for s in statements:
            if 'function' in s:
                f = s['function']['name']
                if any(f == x for x in here):
                    add(local, f)
                here.append(f)
                if any(f == x for x in names):
                    add(anywhere, f)
                names.append(f)
        if fn is not None:
            seen = []
            for a in fn.get('args', ()):
                if any(a == x for x in seen):
                    args.append((a, name))
                seen.append(a)
    got = [g[:2] for g in matches(warnings, UNKNOWN)]
    ctx.check(same_set(got, unknown), lambda: f'unknown labels {show(got)}, expected {show(unknown)}: {show(warnings)}: {text()}')
    got2 = [g[:2] for g in matches(warnings, RE_LABEL)]
    ctx.check(same_set(got2, doubled), lambda: f'redefined labels {show(got2)}, expected {show(doubled)}: {show(warnings)}: {text()}')
    got3 = [g[:2] for g in matches(warnings, RE_ARG)]
    ctx.check(same_set(got3, args), lambda: f'duplicate arguments {show(got3)}, expected {show(args)}: {show(warnings)}: {text()}')
    got4 = [g[0] for g in matches(warnings, RE_FUNCTION)]
    ctx.check(all(any(x == y for y in anywhere) for x in got4) and all(any(x == y for y in got4) for x in local),
              lambda: f'redefined functions {show(got4)}, expected {show(local)} to {show(anywhere)}: {show(warnings)}: {text()}')
    if unknown:
        ctx.reach('unknown label')
    if doubled or args or local:
        ctx.reach('redefinition')


def label_statement(ctx, tag):
    k = ctx.pick('k', ('label', 'jump', 'jumpif', 'log', 'return'))
    if k == 'label':
        return {'label': ctx.str('l' + tag, 1, 'abc')}
    if k == 'jump':
        return {'jump': {'label': ctx.str('j' + tag, 1, 'abc')}}
    if k == 'jumpif':
        return {'jump': {'label': ctx.str('j' + tag, 1, 'abc'), 'expr': {'variable': 'q'}}}
    if k == 'return':
        return {'return': {}}
    return {'expr': {'expr': {'function': {'name': 'log', 'args': [{'string': tag}]}}}}


def labels(ctx, bs):
    """Labels and jumps in the global list, a function and a function inside it"""
    n = ctx.params['n']
    inner = {'function': {'name': 'inner', 'statements': [label_statement(ctx, f'i{i}') for i in range(ctx.choice('ni', ctx.params['inner'] + 1))]}}
    body = [label_statement(ctx, f'f{i}') for i in range(ctx.choice('nf', n))]
    if ctx.flag('nest'):
        body.insert(ctx.choice('at', len(body) + 1), inner)
    top = [label_statement(ctx, f'g{i}') for i in range(ctx.choice('ng', n + 1))]
    top.insert(ctx.choice('fat', len(top) + 1), {'function': {'name': 'outer', 'statements': body}})
    # other functions, before or after, with a label of their own
    others = [{'function': {'name': f'other{i}', 'statements': [{'label': ctx.str('o', 1, 'abc')}, {'jump': {'label': ctx.str('oj', 1, 'abc')}}]}} for i in range(ctx.choice('others', 5))]
    at = ctx.choice('oat', len(top) + 1)
    model = {'statements': top[:at] + others + top[at:]}
    ctx.reach('end')
    exact(ctx, bs, model, lint(ctx, bs, model))


def jumps(ctx, bs):
    """An unknown label warning for exactly the jumps that raise"""
    n = ctx.choice('n', ctx.params['n']) + 1
    body = [label_statement(ctx, f's{i}') for i in range(n)]
    infn = ctx.flag('fn')
    model = {'statements': ([{'function': {'name': 'ff', 'args': ['q'], 'statements': body}}, {'expr': {'expr': {'function': {'name': 'ff', 'args': [{'variable': 'q'}]}}}}] if infn else body)}
    warnings = lint(ctx, bs, model)
    exact(ctx, bs, model, warnings)
    unknown = [g[0] for g in matches(warnings, UNKNOWN)]
    q = ctx.int('q', 0, 1)
    _, err, _, _ = observe(bs, model, {'q': q})
    ctx.reach('raised' if err is not None and err[:18] == 'Unknown jump label' else 'end')
    if err is not None and err[:18] == 'Unknown jump label':
        ctx.check(any(err == f'Unknown jump label "{u}"' for u in unknown), lambda: f'{err} without a warning ({show(warnings)}): {show(model)}')


def definitions(ctx, bs):
    """Functions, arguments and labels defined more than once"""
    def function(tag, depth):
        f = {'name': ctx.str('n' + tag, 1, 'ab')}
        na = ctx.choice('na' + tag, ctx.params['args'] + 1)
        if na:
            f['args'] = [ctx.str(f'a{tag}{i}', 1, 'xy') for i in range(na)]
            if ctx.flag('last'):
                f['lastArgArray'] = True
        f['statements'] = [function(f'{tag}{i}', depth + 1) if depth < 1 and ctx.flag('fn') else {'label': ctx.str(f'l{tag}{i}', 1, 'ab')} for i in range(ctx.choice('ns' + tag, 3 if depth == 0 else 2))]
        return {'function': f}
    model = {'statements': [function(str(i), 0) for i in range(ctx.choice('n', ctx.params['n']) + 1)]}
    ctx.reach('end')
    exact(ctx, bs, model, lint(ctx, bs, model))


def arguments(ctx, bs):
    """Argument lists with equal names"""
    f = {'name': 'ff', 'args': [ctx.str(f'a{i}', 1, 'xyz') for i in range(ctx.choice('n', ctx.params['args']) + 1)]}
    if ctx.flag('last'):
        f['lastArgArray'] = True
    f['statements'] = [{'return': {'expr': {'variable': ctx.str('u', 1, 'xyz')}}}] if ctx.flag('use') else []
    model = {'statements': [{'function': f}]}
    if ctx.flag('nested'):
        model = {'statements': [{'function': {'name': 'gg', 'statements': model['statements']}}]}
    ctx.reach('end')
    exact(ctx, bs, model, lint(ctx, bs, model))


# Edits that the warnings justify

def plain(v):
    """Functions by being one"""
    if callable(v):
        return 'function'
    return [plain(x) for x in v] if isinstance(v, list) else v


def observe(bs, model, vals):
    trace = []
    g = dict(vals)
    g['log'] = lambda args, options: trace.append(args[0] if args else None)
    options = {'globals': g, 'maxStatements': LIMIT, 'fetchFn': lambda request: "log('included')\nx = 7\n"}
    err = res = None
    try:
        res = bs.runtime.execute_script(model, options)
    except bs.runtime.BareScriptRuntimeError as e:
        err = str(e)
    return plain(res), err, plain(trace), {k: plain(v) for k, v in g.items() if k not in bs.library.SCRIPT_FUNCTIONS}


def copy(model):
    if isinstance(model, dict):
        return {k: copy(v) for k, v in model.items()}
    if isinstance(model, list):
        return [copy(v) for v in model]
    return model


def scope(model, name):
    """(function, statements) of the scope a warning names; function names are distinct here"""
    for n, fn, statements in scopes_of(model):
        if n == name:
            return fn, statements
    return None, None


def edit(ctx, bs, model, w, text):
    """The model with the edit a warning suggests, and its kind, or None"""
    m = UNUSED_LABEL.match(w)
    if m is not None:
        name, f, i = m.groups()
        new = copy(model)
        _, st = scope(new, f)
        ctx.check(st is not None and int(i) < len(st) and 'label' in st[int(i)] and st[int(i)]['label'] == name, lambda: f'no such label: {w}: {text()}')
        del st[int(i)]
        return new, 'label'
    m = POINTLESS.match(w)
    if m is not None:
        f, i = m.groups()
        new = copy(model)
        _, st = scope(new, f)
        ctx.check(st is not None and int(i) < len(st) and 'expr' in st[int(i)] and 'name' not in st[int(i)]['expr'], lambda: f'no such statement: {w}: {text()}')
        del st[int(i)]
        return new, 'pointless'
    m = UNUSED_VAR.match(w)
    if m is not None:
        name, f, i = m.groups()
        new = copy(model)
        fn, st = scope(new, f)
        ctx.check(st is not None and any('expr' in s and 'name' in s['expr'] and s['expr']['name'] == name for s in st), lambda: f'no such variable: {w}: {text()}')
        if not any(name == a for a in fn.get('args', ())):
            for s in st:
                if 'expr' in s and 'name' in s['expr'] and s['expr']['name'] == name:
                    s['expr']['name'] = 'renamed'
        return new, 'variable'
    m = UNUSED_ARG.match(w)
    if m is not None:
        name, f, i = m.groups()
        new = copy(model)
        fn, st = scope(new, f)
        ctx.check(fn is not None and any(name == a for a in fn.get('args', ())), lambda: f'no such argument: {w}: {text()}')
        fn['args'] = ['renamed' if a == name else a for a in fn['args']]
        for s in st:
            if 'expr' in s and 'name' in s['expr'] and s['expr']['name'] == name:
                s['expr']['name'] = 'renamed'
        return new, 'argument'
    return None


def justified(ctx, bs, model, warnings, vals, run=None, text=None):
    """Every edit keeps the result, the output and the final globals"""
    run = run or (lambda m: observe(bs, m, vals))
    text = text or (lambda: f'{show(model)} with {show(vals)}')
    edits = [(w, e) for w, e in ((w, edit(ctx, bs, model, w, text)) for w in warnings) if e is not None]
    if not edits:
        return
    a = run(model)
    if a[1] is not None and a[1][:8] == 'Exceeded':
        return
    for w, (new, kind) in edits:
        ctx.reach(kind)
        b = run(new)
        ctx.check(a[1] == b[1], lambda: f'{w}: the edit changes the error {a[1]} to {b[1]}: {text()}')
        ctx.check(same(a[0], b[0]), lambda: f'{w}: the edit changes the result {show(a[0])} to {show(b[0])}: {text()}')
        ctx.check(len(a[2]) == len(b[2]) and all(same(x, y) for x, y in zip(a[2], b[2])), lambda: f'{w}: the edit changes the output {show(a[2])} to {show(b[2])}: {text()}')
        ctx.check(set(a[3]) == set(b[3]) and all(same(a[3][k], b[3][k]) for k in a[3]), lambda: f'{w}: the edit changes the globals {show(a[3])} to {show(b[3])}: {text()}')


def atom(ctx, tag, var=False):
    k = ctx.pick('atom', ('var', 'callvar') if var else ('var', 'call', 'number', 'callvar', 'callarg'))
    if k == 'var':
        return {'variable': ctx.str('u' + tag, 1, 'xy')}
    if k == 'call':
        return {'function': {'name': 'log', 'args': [{'string': tag}]}}
    if k == 'callvar':
        return {'function': {'name': ctx.str('u' + tag, 1, 'xy')}}
    if k == 'callarg':
        return {'function': {'name': ctx.str('u' + tag, 1, 'xy'), 'args': [{'number': 1}, {'variable': 'q'}][:ctx.choice('nca', 3)]}}
    return {'number': 1}


def expression(ctx, tag, depth, var=False):
    """An atom under wrappers"""
    e = atom(ctx, tag, var)
    for _ in range(ctx.choice('wraps', depth + 1)):
        w = ctx.pick('wrap', ('not', 'neg', 'group', 'left', 'right', 'and', 'or', 'arg', 'arg2', 'if', 'if3', 'ifcond'))
        if w in ('not', 'neg'):
            e = {'unary': {'op': '!' if w == 'not' else '-', 'expr': e}}
        elif w == 'group':
            e = {'group': e}
        elif w == 'left':
            e = {'binary': {'op': '+', 'left': e, 'right': {'string': 's'}}}
        elif w in ('right', 'and', 'or'):
            e = {'binary': {'op': {'right': '-', 'and': '&&', 'or': '||'}[w], 'left': {'number': 2}, 'right': e}}
        elif w == 'arg':
            e = {'function': {'name': 'log', 'args': [e]}}
        elif w == 'arg2':
            e = {'function': {'name': 'arrayNew', 'args': [{'number': 0}, e]}}
        elif w == 'if3':
            e = {'function': {'name': 'if', 'args': [{'variable': 'q'}, {'number': 3}, e]}}
        elif w == 'ifcond':
            e = {'function': {'name': 'if', 'args': [e, {'number': 3}, {'string': 'else'}][:ctx.choice('nif', 3) + 1]}}
        else:
            e = {'function': {'name': 'if', 'args': [{'variable': 'q'}, e, {'string': 'else'}]}}
    return e


def body_statement(ctx, tag, depth=1):
    k = ctx.pick('k', ('set', 'expr', 'label', 'jumpif', 'return', 'jump', 'fnval', 'include'))
    if k == 'set':
        return {'expr': {'name': ctx.str('v' + tag, 1, 'xy'), 'expr': expression(ctx, tag, depth)}}
    if k == 'fnval':
        return {'expr': {'name': ctx.str('v' + tag, 1, 'xy'), 'expr': {'variable': 'log'}}}
    if k == 'expr':
        return {'expr': {'expr': expression(ctx, tag, depth)}}
    if k == 'label':
        return {'label': ctx.str('l' + tag, 1, 'ab')}
    if k == 'jumpif':
        return {'jump': {'label': ctx.str('l' + tag, 1, 'ab'), 'expr': expression(ctx, tag, depth)}}
    if k == 'jump':
        return {'jump': {'label': ctx.str('l' + tag, 1, 'ab')}}
    if k == 'include':
        return {'include': {'includes': [{'url': 'u'}]}}
    return {'return': {'expr': expression(ctx, tag, depth)}}


def values(ctx):
    return {'q': ctx.int('q', 0, 1), 'x': gen(ctx, 'x', ('int', 'str', 'null'), lo=0, hi=1, strlen=1, alpha='z'), 'y': ctx.int('y', 0, 1)}


def functions(ctx, bs):
    """A function with arguments, locals, labels and pointless statements"""
    d = ctx.params['depth']
    f = {'name': 'ff', 'statements': [body_statement(ctx, f'f{i}', d) for i in range(ctx.choice('n', ctx.params['n']) + 1)]}
    na = ctx.choice('na', 3)
    if na:
        f['args'] = [ctx.str(f'a{i}', 1, 'xy') for i in range(na)]
        if ctx.flag('last'):
            f['lastArgArray'] = True
    if ctx.flag('nested'):
        f['statements'].insert(ctx.choice('at', len(f['statements']) + 1), {'function': {'name': 'gg', 'args': ['y'], 'statements': [body_statement(ctx, 'g', d)]}})
    model = {'statements': [{'function': f}]}
    args = [{'variable': 'q'}, {'number': 5}, {'string': 'three'}][:ctx.choice('nargs', 4)]
    model['statements'].append({'expr': {'name': 'r', 'expr': {'function': {'name': 'ff', 'args': args}}}})
    model['statements'].append({'return': {'expr': {'variable': 'r'}}})
    warnings = lint(ctx, bs, model)
    exact(ctx, bs, model, warnings)
    ctx.reach('end')
    justified(ctx, bs, model, warnings, values(ctx))


def use(ctx, bs):
    """One or two assignments and the only use of the variable, anywhere among other statements"""
    name = ctx.str('v', 1, 'xy')
    k = ctx.pick('use', ('set', 'expr', 'jumpif', 'return', 'arg', 'nested'))
    e = expression(ctx, 'e', ctx.params['depth'], True)
    fill = lambda i: ctx.pick(f'fill{i}', ({'label': 'lab'}, {'expr': {'expr': {'function': {'name': 'log', 'args': [{'string': 'f'}]}}}}, {'jump': {'label': 'lab', 'expr': {'variable': 'q'}}}, {'expr': {'name': 'w', 'expr': {'variable': 'w'}}},       # noqa: E731
                                          {'return': {'expr': {'binary': {'op': '+', 'left': {'variable': 'q'}, 'right': {'number': 1}}}}}, {'function': {'name': 'hh', 'statements': []}}, {'include': {'includes': [{'url': 'u'}]}}))
    if k == 'set':
        st = {'expr': {'name': ctx.str('z', 1, 'xyz'), 'expr': e}}
    elif k == 'expr':
        st = {'expr': {'expr': e}}
    elif k == 'jumpif':
        st = {'jump': {'label': 'lab', 'expr': e}}
    elif k == 'return':
        st = {'return': {'expr': e}}
    elif k == 'arg':
        st = {'expr': {'expr': {'function': {'name': 'log', 'args': [{'number': 0}, e]}}}}
    else:
        st = {'function': {'name': 'gg', 'args': ['x'], 'statements': [{'return': {'expr': e}}]}}
    before = ctx.choice('before', ctx.params['n'] + 1)
    free = ctx.params['free']
    body = [copy(fill(i)) if i >= before - free else {'expr': {'name': 'w', 'expr': {'number': i}}} for i in range(before)]
    body.append(st)
    body += [copy(fill(10 + i)) for i in range(ctx.choice('after', 2))]
    ix = ctx.choice('ix', len(body) + 1)
    body.insert(ix, {'expr': {'name': name, 'expr': {'number': 3}}})
    if ctx.flag('again'):
        body.insert(ctx.choice('ix2', len(body) + 1), {'expr': {'name': name, 'expr': {'variable': 'q'}}})
    body.append({'label': 'lab'} if not any('label' in s for s in body) else {'return': {}})
    f = {'name': 'ff', 'args': ['q', 'y'][:ctx.choice('na', 2) + 1], 'statements': body}
    model = {'statements': [{'function': f}, {'return': {'expr': {'function': {'name': 'ff', 'args': [{'variable': 'q'}, {'number': 5}]}}}}]}
    warnings = lint(ctx, bs, model)
    exact(ctx, bs, model, warnings)
    ctx.reach('end')
    justified(ctx, bs, model, warnings, values(ctx))


def toplevel(ctx, bs):
    """Global labels and pointless statements"""
    model = {'statements': [body_statement(ctx, f's{i}', ctx.params['depth']) for i in range(ctx.choice('n', ctx.params['n']) + 1)]}
    warnings = lint(ctx, bs, model)
    exact(ctx, bs, model, warnings)
    ctx.reach('end')
    justified(ctx, bs, model, warnings, values(ctx))


def structured(ctx, bs):
    """Parsed structured programs"""
    g = P.Gen(ctx, ctx.params['budget'], 3, ('set', 'show', 'if', 'while', 'for', 'continue', 'break', 'return', 'call'), ('def',), maxblock=2)
    tree = g.block(0, False, None, 1)
    lines = P.lines_of(tree)
    extra = ctx.pick('extra', (None, 'lab:', 'x + y', 'jumpif (x) lab', 'x'))
    if extra is not None:
        # anywhere, also inside blocks and functions
        lines.insert(ctx.choice('at', len(lines) + 1), extra)
    src = '\n'.join(lines)
    try:
        model = bs.parser.parse_script(src)
    except bs.parser.BareScriptParserError:
        return
    warnings = lint(ctx, bs, model, lambda: src)
    exact(ctx, bs, model, warnings, lambda: src)
    ctx.reach('end')
    world = P.World(ctx, conds=4, arrays=2)

    def run(m):
        trace = []
        gl = P.host(world, trace)
        gl['x'] = 0
        err = res = None
        try:
            res = bs.runtime.execute_script(m, {'globals': gl, 'logFn': trace.append, 'maxStatements': LIMIT})
        except bs.runtime.BareScriptRuntimeError as e:
            err = str(e)
        except P.Fuel:
            err = 'Exceeded the outcomes'
        return res, err, [t[1] if isinstance(t, tuple) else t for t in trace], P.user_vars(gl)
    if len({n for n, _, _ in scopes_of(model)}) == len(scopes_of(model)):
        justified(ctx, bs, model, warnings, None, run, lambda: src)


def anything(ctx, bs):
    """Every schema-valid shape: no exception, no change, no surprise"""
    def stmt(depth):
        k = ctx.pick('k', ('expr', 'jump', 'return', 'label', 'function', 'include') if depth < 2 else ('expr', 'jump', 'return', 'label', 'include'))
        if k == 'expr':
            e = {'expr': expr(0)}
            if ctx.flag('name'):
                e['name'] = ctx.str('v', ctx.choice('nv', 2), 'xt')
            return {'expr': e}
        if k == 'jump':
            j = {'label': ctx.str('j', ctx.choice('nj', 2), 'x"')}
            if ctx.flag('cond'):
                j['expr'] = expr(0)
            return {'jump': j}
        if k == 'return':
            return {'return': {'expr': expr(0)}} if ctx.flag('value') else {'return': {}}
        if k == 'label':
            return {'label': ctx.str('l', ctx.choice('nl', 2), 'x"')}
        if k == 'include':
            return {'include': {'includes': [{'url': ctx.str('u', ctx.choice('nu', 2), 'a'), 'system': ctx.flag('system')}] * (ctx.choice('ni', 2) + 1)}}
        f = {'name': ctx.str('f', ctx.choice('nf', 2), 'fx')}
        if ctx.flag('async'):
            f['async'] = ctx.flag('asyncv')
        if ctx.flag('args'):
            f['args'] = [ctx.str('a', ctx.choice('la', 2), 'xy') for _ in range(ctx.choice('na', 2) + 1)]
        if ctx.flag('last'):
            f['lastArgArray'] = ctx.flag('lastv')
        f['statements'] = [stmt(depth + 1) for _ in range(ctx.choice('ns', 3))]
        return {'function': f}

    def expr(depth):
        k = ctx.pick('e', ('number', 'string', 'variable', 'function', 'binary', 'unary', 'group') if depth < 2 else ('number', 'variable', 'function'))
        if k == 'number':
            return {'number': ctx.pick('num', (0, 1.5))}
        if k == 'string':
            return {'string': ''}
        if k == 'variable':
            return {'variable': ctx.str('n', ctx.choice('nn', 2), 'xt')}
        if k == 'binary':
            return {'binary': {'op': ctx.pick('op', ('+', '&&', '**')), 'left': expr(depth + 1), 'right': expr(depth + 1)}}
        if k == 'unary':
            return {'unary': {'op': ctx.pick('uop', ('!', '-')), 'expr': expr(depth + 1)}}
        if k == 'group':
            return {'group': expr(depth + 1)}
        f = {'name': ctx.str('fn', ctx.choice('nn', 2), 'fx')}
        if ctx.flag('fargs'):
            f['args'] = [expr(depth + 1) for _ in range(ctx.choice('nfa', 3))]
        return {'function': f}
    model = {'statements': [stmt(0) for _ in range(ctx.choice('n', ctx.params['n'] + 1))]}
    bs.model.validate_script(model)
    ctx.reach('end')
    exact(ctx, bs, model, lint(ctx, bs, model))


SHIPPED = ('args.bare', 'diff.bare', 'forms.bare', 'markdownUp.bare', 'pager.bare', 'unittest.bare', 'unittestMock.bare')
PARSED = {}


def shipped(ctx, bs):
    """The shipped scripts, whole and with one statement changed"""
    name = ctx.pick('script', SHIPPED)
    if name not in PARSED:
        with open(os.path.join(bs.src, 'include', name), encoding='utf-8') as f:
            PARSED[name] = bs.parser.parse_script(f.read())
    model = PARSED[name]
    how = ctx.pick('how', ('whole', 'drop', 'double', 'move'))
    if how == 'whole':
        ctx.reach('end')
        exact(ctx, bs, model, lint(ctx, bs, model, lambda: name), lambda: name)
        return
    model = copy(model)
    scopes = scopes_of(model)
    which = ctx.choice('scope', len(scopes))
    statements = scopes[which][2]
    if not statements:
        return
    # one of eight statements of the scope: labels and jumps first
    order = sorted(range(len(statements)), key=lambda i: 'label' not in statements[i] and 'jump' not in statements[i])
    k = ctx.choice('statement', min(ctx.params['statements'], len(order)))
    i = order[k]
    if how == 'drop':
        del statements[i]
    elif how == 'double':
        statements.insert(i, copy(statements[i]))
    else:
        s = statements.pop(i)
        scopes[ctx.choice('to', min(3, len(scopes)))][2].append(s)

    def text():
        return f'{name}: {how} statement {i} of {scopes[which][0]}'
    ctx.reach('end')
    exact(ctx, bs, model, lint(ctx, bs, model, text), text)


HARNESSES = [
    Harness(labels, order='random', quick={'n': 3, 'inner': 1}, thorough={'n': 4, 'inner': 2}, bounds='<= n global and < n function statements, a nested function'),
    Harness(jumps, quick={'n': 4}, thorough={'n': 5}, bounds='<= n statements, run with a symbolic condition'),
    Harness(definitions, order='random', quick={'n': 3, 'args': 2}, thorough={'n': 3, 'args': 3}, bounds='<= n functions of <= 3 arguments, nested functions'),
    Harness(arguments, weight=0.7, order='random', quick={'args': 4}, thorough={'args': 5}, bounds='<= args arguments of 3 names'),
    Harness(use, weight=1.5, order='random', strata=3, quick={'n': 4, 'free': 1, 'depth': 1}, thorough={'n': 6, 'free': 3, 'depth': 2}, bounds='<= n statements before the use (any of 7 kinds just before it), <= 1 after, one or two assignments anywhere'),
    Harness(functions, weight=2, order='random', strata=3, quick={'n': 3, 'depth': 1}, thorough={'n': 4, 'depth': 2}, bounds='<= n statements, wrappers to depth'),
    Harness(toplevel, weight=1.5, order='random', strata=3, quick={'n': 3, 'depth': 2}, thorough={'n': 4, 'depth': 2}, bounds='<= n statements, wrappers to depth'),
    Harness(structured, order='random', quick={'budget': 5}, thorough={'budget': 7}, bounds='<= budget nodes and an added line'),
    Harness(anything, order='random', strata=3, quick={'n': 2}, thorough={'n': 3}, bounds='<= n statements at the top, 2 in functions'),
    Harness(shipped, weight=0.7, order='random', quick={'statements': 6}, thorough={'statements': 1000}, bounds='7 scripts, one change each'),
]
QUICK_SECONDS = 75
