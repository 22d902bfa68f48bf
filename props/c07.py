"""C07: lowered code is well formed: schema-valid with intact, unique jump targets"""

from symx.harness import Harness
from props.common import show
from props import c06

BOUNDS = ('programs of <= 4 (exhausted) to 12 nodes over if/elif/else, while, for, for-with-index, break, continue, functions, user labels and jumps, nesting <= 4; line sequences of '
          '<= 4 / 5 lines; nests of depth 4 with every block kind; condition outcomes symbolic for the executions')
ASSUMPTIONS = ['user labels are told from emitted ones by their names, which do not start with __bareScript']

CONDS = ('cc()', 'true', 'false', '!cc()', '1')
BLOCKS = ('if', 'ifelse', 'ifelif', 'ifelifelse', 'ifelifelif', 'while', 'for', 'forix')


class Shapes:
    """Source lines of a program; every node is a forked choice"""

    def __init__(self, ctx, budget, depth, user=False, conds=CONDS[:2], maxblock=3):
        self.ctx = ctx
        self.budget = budget
        self.depth = depth
        self.user = user
        self.conds = conds
        self.maxblock = maxblock
        self.lines = []
        self.labels = 0
        self.fns = 0

    def emit(self, ind, text):
        self.lines.append('    ' * ind + text)

    def cond(self):
        return self.ctx.pick('c', self.conds)

    def block(self, ind, depth, loop, fn):
        n = 0
        while self.budget > 0 and n < self.maxblock and self.ctx.flag('more'):
            self.stmt(ind, depth, loop, fn)
            n += 1

    def stmt(self, ind, depth, loop, fn):
        self.budget -= 1
        kinds = ('log',)
        if depth < self.depth:
            kinds += BLOCKS
        if loop:
            kinds += ('break', 'continue')
        if self.user:
            kinds += ('label', 'jump', 'return')
        if fn is None and self.fns < 3:
            kinds += ('function',)
        k = self.ctx.pick('k', kinds)
        e = self.emit
        if k == 'log':
            e(ind, "systemLog('x')")
        elif k in ('break', 'continue'):
            e(ind, k)
        elif k == 'label':
            self.labels += 1
            e(ind, f'user{self.labels}:')
        elif k == 'jump':
            e(ind, 'jump user1' if self.ctx.flag('j') else 'jumpif (cc()) user1')
        elif k == 'return':
            e(ind, 'return')
        elif k == 'function':
            self.fns += 1
            e(ind, f'function ff{self.fns}():')
            self.block(ind + 1, depth + 1, False, self.fns)
            e(ind, 'endfunction')
        elif k == 'while':
            e(ind, f'while {self.cond()}:')
            self.block(ind + 1, depth + 1, True, fn)
            e(ind, 'endwhile')
        elif k in ('for', 'forix'):
            e(ind, f'for vv{", ix" if k == "forix" else ""} in aa():')
            self.block(ind + 1, depth + 1, True, fn)
            e(ind, 'endfor')
        else:
            e(ind, f'if {self.cond()}:')
            self.block(ind + 1, depth + 1, loop, fn)
            for _ in range(k.count('elif')):
                e(ind, f'elif {self.cond()}:')
                self.block(ind + 1, depth + 1, loop, fn)
            if k in ('ifelse', 'ifelifelse'):
                e(ind, 'else:')
                self.block(ind + 1, depth + 1, loop, fn)
            e(ind, 'endif')


def user_labels(lines):
    return {ln.strip(' ')[:-1] for ln in lines if ln.strip(' ')[-1:] == ':' and ' ' not in ln.strip(' ') and ln.strip(' ') != 'else:'}


def user_jumps(lines):
    return [ln.strip(' ').split(' ')[-1] for ln in lines if ln.strip(' ')[:4] == 'jump']


def scopes(statements, out):
    out.append(statements)
    for s in statements:
        if 'function' in s:
            scopes(s['function']['statements'], out)
    return out


def well_formed(ctx, bs, model, lines):
    src = '\n'.join(lines)
    try:
        bs.model.validate_script(model)
    except Exception as e:      # pylint: disable=broad-exception-caught
        ctx.fail(lambda: f'does not validate: {e}\n{src}')
    mine = user_labels(lines)
    targets = set(user_jumps(lines))
    for st in scopes(model['statements'], []):
        labels = [s['label'] for s in st if 'label' in s]
        jumps = [s['jump']['label'] for s in st if 'jump' in s]
        for name in labels:
            if name not in mine:
                ctx.check(name[:12] == '__bareScript', lambda: f'emitted label {name} has no reserved prefix:\n{src}')
                ctx.check(labels.count(name) == 1, lambda: f'label {name} is defined {labels.count(name)} times in one scope:\n{src}')
                ctx.check(name in jumps, lambda: f'label {name} is no jump\'s target:\n{src}')
        for name in jumps:
            if name not in targets:
                ctx.check(name[:12] == '__bareScript', lambda: f'emitted jump target {name} has no reserved prefix:\n{src}')
                ctx.check(name in labels, lambda: f'jump to {name}, which its scope does not define:\n{src}')
    for w in bs.model.lint_script(model):
        if ' label ' in w or 'label "' in w:
            ctx.check(any(f'"{m}"' in w for m in mine | targets), lambda: f'lint: {w}\n{src}')


def statement_kinds(model):
    return [next(iter(s)) for s in model['statements']]


def parse(bs, ctx, lines):
    try:
        return bs.parser.parse_script('\n'.join(lines))
    except bs.parser.BareScriptParserError as e:
        msg = str(e)
    ctx.fail(lambda: f'rejected: {msg}\n' + '\n'.join(lines))
    return None


def small(ctx, bs):
    """Every program of a few nodes"""
    g = Shapes(ctx, ctx.params['budget'], 4)
    g.stmt(0, 0, False, None)
    g.block(0, 0, False, None)
    ctx.reach()
    well_formed(ctx, bs, parse(bs, ctx, g.lines), g.lines)


def large(ctx, bs):
    """Larger programs, with user labels and jumps"""
    g = Shapes(ctx, ctx.params['budget'], 4, user=ctx.flag('user'), conds=CONDS)
    for _ in range(3):
        if g.budget > 0:
            g.stmt(0, 0, False, None)
    g.block(0, 0, False, None)
    ctx.reach()
    well_formed(ctx, bs, parse(bs, ctx, g.lines), g.lines)


def nest(ctx, bs):
    """Depth-4 nests: each level any block kind, jumps of the loops before and after the nested block, in any branch"""
    g = Shapes(ctx, 0, 4)
    where = ctx.pick('where', ('global', 'function', 'inblock'))
    depth = ctx.choice('depth', ctx.params['depth']) + 1

    def jumps(ind, loop, tag):
        if loop:
            j = ctx.pick('j' + tag, (None, 'break', 'continue', 'both'))
            if j == 'both':
                g.emit(ind, 'if cc():')
                g.emit(ind + 1, 'continue')
                g.emit(ind, 'endif')
                g.emit(ind, 'break')
            elif j:
                g.emit(ind, j)

    def level(ind, d, loop):
        if d == 0:
            g.emit(ind, "systemLog('x')")
            return
        k = ctx.pick('k', BLOCKS)
        if k in ('while', 'for', 'forix'):
            g.emit(ind, {'while': 'while cc():', 'for': 'for vv in aa():', 'forix': 'for vv, ix in aa():'}[k])
            jumps(ind + 1, True, 'a')
            level(ind + 1, d - 1, True)
            jumps(ind + 1, True, 'b')
            g.emit(ind, 'end' + k[:5].replace('forix', 'for'))
        else:
            n = 1 + k.count('elif') + (k in ('ifelse', 'ifelifelse'))
            at = ctx.choice('at', n)
            for i in range(n):
                last = i == n - 1 and k in ('ifelse', 'ifelifelse')
                g.emit(ind, 'if cc():' if i == 0 else 'else:' if last else 'elif cc():')
                if i == at:
                    level(ind + 1, d - 1, loop)
                    jumps(ind + 1, loop, 'c')
            g.emit(ind, 'endif')

    if where == 'function':
        g.emit(0, 'function ff1():')
        level(1, depth, False)
        g.emit(0, 'endfunction')
        g.emit(0, 'if cc():')
        g.emit(0, 'endif')
    elif where == 'inblock':
        g.emit(0, 'while cc():')
        g.emit(0, 'function ff1():')
        level(1, depth, False)
        g.emit(0, 'endfunction')
        g.emit(0, ctx.pick('after', ('break', 'continue')))
        g.emit(0, 'endwhile')
        g.emit(0, 'function ff2():')
        g.emit(0, 'for v, i in aa():')
        g.emit(0, 'continue')
        g.emit(0, 'endfor')
        g.emit(0, 'endfunction')
    else:
        level(0, depth, False)
    ctx.reach()
    well_formed(ctx, bs, parse(bs, ctx, g.lines), g.lines)


def wide(ctx, bs):
    """Long elif chains, loops with many jumps, long runs of blocks side by side"""
    g = Shapes(ctx, 0, 4)
    where = ctx.pick('where', ('global', 'function', 'while', 'if'))
    g.emit(0, {'global': "systemLog('x')", 'function': 'function ff1():', 'while': 'while cc():', 'if': 'if cc():'}[where])
    loop = where == 'while'

    def one(tag, simple):
        k = ctx.pick('k' + tag, BLOCKS[:3] + BLOCKS[5:] if simple else ('chain', 'loop', 'forloop'))
        if k == 'chain':
            n = ctx.choice('n' + tag, ctx.params['n']) + 1
            at = ctx.choice('at' + tag, n + 2)
            for i in range(n + 1):
                g.emit(1, 'elif cc():' if i else 'if cc():')
                if i == at:
                    inner(tag)
            if ctx.flag('else' + tag):
                g.emit(1, 'else:')
                if at == n + 1:
                    inner(tag)
            g.emit(1, 'endif')
        elif simple and k[:2] == 'if':
            g.emit(1, 'if cc():')
            if k != 'if':
                g.emit(1, 'elif cc():' if 'elif' in k else 'else:')
            g.emit(1, 'endif')
        else:
            g.emit(1, 'while cc():' if k in ('while', 'loop') else 'for vv, ix in aa():' if k == 'forix' else 'for vv in aa():')
            if not simple:
                for i in range(ctx.choice('n' + tag, ctx.params['n']) + 1):
                    g.emit(2, 'if cc():')
                    g.emit(3, ctx.pick(f'j{tag}{i}', ('break', 'continue')))
                    g.emit(2, 'endif')
            g.emit(1, 'endwhile' if k in ('while', 'loop') else 'endfor')

    def inner(tag):
        k = ctx.pick('in' + tag, ('if', 'while', 'for') + (('break', 'continue') if loop else ()))
        if k in ('break', 'continue'):
            g.emit(2, k)
        else:
            g.emit(2, {'if': 'if cc():', 'while': 'while cc():', 'for': 'for vv in aa():'}[k])
            g.emit(2, 'end' + k)

    before = ctx.choice('before', ctx.params['side'] + 1)
    for i in range(before):
        one(f'b{i}', True)
    one('m', False)
    for i in range(ctx.choice('after', ctx.params['side'] + 1)):
        one(f'a{i}', True)
    if where != 'global':
        g.emit(0, 'end' + where)
    ctx.reach(where)
    well_formed(ctx, bs, parse(bs, ctx, g.lines), g.lines)


def soup(ctx, bs):
    """Any sequence of lines the parser accepts"""
    kinds, lines, _ = c06.build(ctx, ctx.choice('n', ctx.params['n']) + 1)
    try:
        model = bs.parser.parse_script('\n'.join(lines))
    except bs.parser.BareScriptParserError:
        ctx.reach('rejected')
        return
    ctx.reach('model')
    well_formed(ctx, bs, model, [ln for ln, k in zip(lines, kinds) if k not in ('comment', 'blank')])


def expressions(ctx, bs):
    """Statements with any short symbolic expression: the accepted ones validate"""
    pre, post = ctx.pick('c', (('xx = ', ''), ('', ''), ('return ', ''), ('if ', ':\nendif'), ('while ', ':\nendwhile'), ('for vv in ', ':\nendfor'), ('jumpif (', ') user1\nuser1:'), ("include '", "'"),
                               ('include <', '>'), ('function ff(', '):\nendfunction'), ('function ff(aa, ', '...):\nendfunction')))
    n = ctx.choice('n', ctx.params['n'] + 1)
    text = pre + ctx.str('h', n, "a1 ()+-,'!.") + post
    try:
        model = bs.parser.parse_script(text)
    except bs.parser.BareScriptParserError:
        ctx.reach('rejected')
        return
    ctx.reach('model')
    try:
        bs.model.validate_script(model)
    except Exception as e:      # pylint: disable=broad-exception-caught
        ctx.fail(lambda: f'{show(text)} gives a model that does not validate: {e}')


def execute(ctx, bs):
    """Executions with symbolic outcomes never meet an unknown label"""
    g = Shapes(ctx, ctx.params['budget'], 3, conds=CONDS[:1], maxblock=2)
    g.fns = 3
    g.stmt(0, 0, False, None)
    g.block(0, 0, False, None)
    infn = ctx.flag('infn')
    lines = ['function gg():'] + g.lines + ['endfunction', 'gg()'] if infn else g.lines
    model = parse(bs, ctx, lines)
    outcomes = [ctx.int(f'q{i}', 0, 1) for i in range(5)]
    pos = [0]

    def cc(args, options):
        pos[0] += 1
        return outcomes[pos[0] - 1] if pos[0] <= len(outcomes) else 0

    def aa(args, options):
        return [1] * outcomes[0]

    try:
        bs.runtime.execute_script(model, {'globals': {'cc': cc, 'aa': aa}, 'maxStatements': 60})
    except bs.runtime.BareScriptRuntimeError as e:
        msg = str(e)
        ctx.check(msg[:17] == 'Exceeded maximum ', lambda: f'{msg}:\n' + '\n'.join(lines))
    ctx.reach()


HARNESSES = [
    Harness(small, quick={'budget': 3}, thorough={'budget': 4}, bounds='<= budget nodes'),
    Harness(large, weight=1.5, order='random', quick={'budget': 9}, thorough={'budget': 12}, bounds='<= budget nodes, user labels and jumps'),
    Harness(nest, weight=1.5, order='random', strata=4, quick={'depth': 4}, thorough={'depth': 4}, bounds='nests of depth <= 4 in 3 places'),
    Harness(wide, order='random', quick={'n': 5, 'side': 2}, thorough={'n': 9, 'side': 3}, bounds='chains of <= n elif, loops of <= n jumps, <= side blocks before and after, 4 places'),
    Harness(soup, order='random', strata=2, quick={'n': 4}, thorough={'n': 5}, bounds='<= n lines of 24 kinds'),
    Harness(expressions, quick={'n': 3}, thorough={'n': 4}, bounds='11 statements, <= n symbolic characters'),
    Harness(execute, order='random', quick={'budget': 3}, thorough={'budget': 5}, bounds='<= budget nodes, 5 symbolic outcomes'),
]
QUICK_SECONDS = 75
