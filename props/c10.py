"""C10: source layout does not change the parsed program"""

import os

from symx.harness import Harness
from props.common import show, snapshot
from props import c06, c07

BOUNDS = ('texts of <= 4 (quick) / 6 (thorough) symbolic characters over 12 symbols; <= 3 logical lines of 34 token sequences with up to 3 inter-token gaps rewritten; programs of <= 5 / 8 nodes; '
          'the seven shipped scripts, whole')
ASSUMPTIONS = ['a continuation backslash before the last piece of a line is followed by another piece (a blank rest would swallow the next line)',
               'two texts agree when both are rejected (diagnostics depend on the layout and belong to another property)']


def parse(bs, text):
    try:
        return bs.parser.parse_script(text)
    except bs.parser.BareScriptParserError:
        return 'rejected'


PADS = ('', '  ', '\t')
TAILS = ('', ' ', '\t ')
FILL = ([], [''], ['# if x = 1:'], ['  \t', '   # \\'])


def rewrite(ctx, lines, every=False):
    """Another layout of the same physical lines; returns a text or chunks"""
    pad = ctx.pick('pad', PADS)
    tail = ctx.pick('tail', TAILS)
    fill = ctx.pick('fill', FILL)
    at = -1 if every or not fill else ctx.choice('at', len(lines) + 1)
    out = []
    for i, ln in enumerate(lines):
        if at in (-1, i):
            out.extend(fill)
        out.append(pad + ln + tail)
    if at in (-1, len(lines)):
        out.extend(fill)
    eol = ctx.pick('eol', ('\n', '\r\n'))
    form = ctx.pick('form', ('text', 'lines', 'tuple', 'generator', 'cut', 'cut2', 'final'))
    if form == 'lines':
        return out
    if form == 'tuple':
        return tuple(out)
    if form == 'generator':
        return (x for x in out)
    if form == 'final':
        return eol.join(out) + eol
    if form in ('cut', 'cut2') and len(out) > 1:
        c = ctx.choice('cut', min(len(out) - 1, 8)) + 1
        if every:
            c = c * (len(out) - 1) // 8 + 1
        # the line end may stay with the chunk in front
        first = eol.join(out[:c]) + (eol if form == 'cut2' else '')
        return [first, eol.join(out[c:])]
    return eol.join(out)


def chars(ctx, bs):
    """Any short text against a rewritten layout"""
    n = ctx.choice('n', ctx.params['n']) + 1
    text = ctx.str('t', n, "ab=:#\\ \n(1'\t")
    lines = text.split('\n')
    base = parse(bs, text)
    got = parse(bs, rewrite(ctx, lines))
    ctx.reach('rejected' if base == 'rejected' else 'model')
    ctx.check(got == base, lambda: f'{show(text)} gives {show(base)}, another layout {show(got)}')


# token sequences; '~' is a gap that needs a blank, '_' one that allows it
TOKENS = (
    "xx~=~1", "xx_=_'a b'_+_[c d]", "ff_(_a_,_'x # y'_)", "xx_=_!_a_&&_(_b_||_c_)", "xx = a_*_2_-_b_**_c", "la_:", "jump~la", "jumpif_(_a_<_2_)~la", "jumpif_(_ff_(_a_)_)~la", "return", "return~a_+_1",
    "include~'u.bare'", "include~<u.bare>", "if~a_:", "if~(_a_)_:", "elif~b_==_'x: y'_:", "else_:", "endif", "while~!_a_:", "while~true_:", "endwhile", "for~v~in~aa_:",
    "for~v_,~i~in~ff_(_)_:", "endfor", "break", "continue", "function~gg_(_)_:", "function~gg_(_a_,_b_)_:", "function~gg_(_a_,_b_..._)_:", "async~function~gg_(_a_..._)_:", "endfunction", "xx~=~1~+*~2", "'it\\'s'_+_\"q\\\\\"",
    "xx_=_if_(_a_,_1_,_-_b_)")
GAPS = ('  ', '\t', '\\\n', ' \\ \n   ', '\\\n\t# c \\\n\n', ' \\\n\\\n ')


def parts(seq):
    out = []
    cur = ''
    for c in seq:
        if c in '~_':
            out.append((cur, c))
            cur = ''
        else:
            cur += c
    out.append((cur, None))
    return out


def base_text(seq):
    return ''.join([t + {'~': ' ', '_': '', None: ''}[g] for t, g in parts(seq)])


WRAP = {'else_:': (("if x:",), ("endif",)), 'break': (('while x:',), ('endwhile',)), 'continue': (('for v in x:',), ('endfor',)), 'endif': (('if x:',), ()), 'endwhile': (('while x:',), ()),
        'endfor': (('for v in x:',), ()), 'endfunction': (('function hh():',), ())}


def wrap_of(seq):
    if seq in WRAP:
        return WRAP[seq]
    if seq[:2] == 'if':
        return ((), ('endif',))
    if seq[:4] == 'elif':
        return (('if x:',), ('endif',))
    if seq[:5] == 'while':
        return ((), ('endwhile',))
    if seq[:4] == 'for~':
        return ((), ('endfor',))
    if 'function' in seq:
        return ((), ('endfunction',))
    return ((), ())


def tokens(ctx, bs):
    """One to three logical lines, gaps rewritten"""
    n = ctx.choice('n', ctx.params['n']) + 1
    base = []
    other = []
    for _ in range(n):
        seq = ctx.pick('seq', TOKENS)
        before, after = wrap_of(seq) if ctx.flag('wrapped') else ((), ())
        ps = parts(seq)
        gaps = len(ps) - 1
        lead = ctx.pick('lead', ('', '  ', '\\\n', ' \\\n# c\n  '))
        text = lead
        left = 2
        for t, g in ps:
            text += t
            if g is not None:
                if left > 0 and ctx.flag('gap'):
                    left -= 1
                    text += ctx.pick('how', GAPS)
                else:
                    text += ' ' if g == '~' else ''
        text += ctx.pick('end', ('', '  '))
        base.extend(before)
        base.append(base_text(seq))
        base.extend(after)
        other.extend(before)
        other.append(text)
        other.extend(after)
        if gaps == 0 and lead == '':
            ctx.reach('plain')
    a = parse(bs, '\n'.join(base))
    b = parse(bs, '\n'.join(other))
    ctx.reach('rejected' if a == 'rejected' else 'model')
    ctx.check(a == b, lambda: f'{chr(10).join(base)}\n gives {show(a)}, laid out as\n{chr(10).join(other)}\n gives {show(b)}')


def programs(ctx, bs):
    """Whole programs, rewritten"""
    g = c07.Shapes(ctx, ctx.params['budget'], 4, user=True, conds=c07.CONDS)
    g.stmt(0, 0, False, None)
    g.block(0, 0, False, None)
    base = parse(bs, '\n'.join(g.lines))
    ctx.check(base != 'rejected', lambda: 'rejected:\n' + '\n'.join(g.lines))
    lines = [ln.strip(' ') for ln in g.lines] if ctx.flag('strip') else g.lines
    got = parse(bs, rewrite(ctx, lines, ctx.flag('every')))
    ctx.reach()
    ctx.check(got == base, lambda: f'another layout gives another model:\n{chr(10).join(g.lines)}')


SHIPPED = ('forms.bare', 'diff.bare', 'pager.bare', 'unittestMock.bare', 'unittest.bare', 'args.bare', 'markdownUp.bare')


def shipped(ctx, bs):
    """The shipped scripts, whole"""
    name = ctx.pick('f', SHIPPED)
    with open(os.path.join(bs.src, 'include', name), encoding='utf-8') as f:
        text = f.read()
    base = parse(bs, text)
    ctx.check(base != 'rejected', lambda: f'{name} does not parse')
    lines = text.split('\n')
    how = ctx.pick('how', ('layout', 'strip', 'break'))
    if how == 'strip':
        lines = [ln.strip(' ') for ln in lines]
    elif how == 'break':
        # at the first blank after the indentation of every line without quotes
        out = []
        for ln in lines:
            body = ln.strip(' ')
            if "'" in ln or '"' in ln or body[:1] in ('#', '') or ' ' not in body or ln[-1:] == '\\':
                out.append(ln)
            else:
                k = body.find(' ')
                out.extend([body[:k] + ' \\', '      # comment', body[k + 1:]])
        lines = out
    got = parse(bs, rewrite(ctx, lines, True))
    ctx.reach(name)
    ctx.check(got == base, lambda: f'{name} in another layout gives another model')


ODD = "a'\x0b\x0c\r\x1c\x85\u2028\\\n"


def odd(ctx, bs):
    """Characters that look like line ends elsewhere, as one text, as lines and in chunks"""
    before = ctx.pick('before', ("xx = 'p", 'xx = 1', '# c', "ff([a", 'if a:', ''))
    s = ctx.str('s', ctx.choice('n', ctx.params['n']) + 1, ODD)
    after = ctx.pick('after', ("q'", '', ' + b', "])", ' # d'))
    lines = (before + s + after + '\nyy = 2').split('\n')
    base = parse(bs, '\n'.join(lines))
    form = ctx.pick('form', ('lines', 'tuple', 'cut', 'chunk', 'crlf'))
    if form == 'lines':
        other = lines
    elif form == 'tuple':
        other = tuple(lines)
    elif form == 'cut':
        c = ctx.choice('cut', len(lines) - 1) + 1
        other = ['\n'.join(lines[:c]), '\n'.join(lines[c:])]
    elif form == 'chunk':
        other = ['\n'.join(lines)]
    else:
        other = ['\r\n'.join(lines)]
    got = parse(bs, other)
    ctx.reach('rejected' if base == 'rejected' else 'model')
    ctx.check(got == base, lambda: f'{show(lines)} as one text gives {show(base)}, as {form} {show(got)}')


EXPRS = ('1 + 2 * 3', "f(x, 'a') || !b", '(a', '-x ** 2', "'q")


def state(ctx, bs):
    """No state between calls: other texts, failures and changed results in between"""
    kinds, lines, _ = c06.build(ctx, ctx.choice('n', ctx.params['n']) + 1)
    text = '\n'.join(lines)
    other = ctx.pick('other', ('if a:\n  while b:', 'function f(a):\nx = 1 +', 'x = 1 \\', 'for v in a:\nendfor\n', 'while true:\ncontinue\nendwhile\nif x:\nendif', "include 'a'\nif b:\nelse:\nendif"))
    first = parse(bs, text)
    keep = snapshot(first)
    oth1 = snapshot(parse(bs, other))
    ctx.reach('rejected' if first == 'rejected' else 'model')
    second = parse(bs, text)
    ctx.check(second == keep, lambda: f'parsed again after {other!r}: {show(second)}, before {show(keep)}')
    ctx.check(first == keep, lambda: f'parsing again changed the first model of {text!r}')
    if first != 'rejected':
        # no sharing: spoil one result
        spoil(second)
        third = parse(bs, text)
        ctx.check(third == keep and first == keep, lambda: f'models of {text!r} share parts')
    ctx.check(parse(bs, other) == oth1, lambda: f'{other!r} parsed again differs')


USES = ("include '@'", 'include <@>', 'include "@"', '@ = 1', '@ = -1.5', 'x = @(1, @)', 'function @(a):\nreturn a\nendfunction', 'function ff(@, b...):\nreturn @\nendfunction', 'async function ff(@):\nx = @\nendfunction',
        'jump @\n@:', 'jumpif (@) @\n@:', "x = '@'", 'x = "@"', 'x = [@]', 'x = [@ 1] + 2', 'for @ in x:\ny = @\nendfor', 'for v, @ in x:\nendfor', 'while @:\nbreak\nendwhile', 'if !@:\nx = 1\nelif @:\nendif', 'return @ + 1',
        'return (@ * @) ** 2', "x = y + '@' + @", "include '@'\ninclude <@>", "include <@>\ninclude '@'\nx = 1\ninclude '@'", '@ = if(@, 1)', '@()', "x = @('@', [@ @])", '@\n@', 'function @():\nendfunction\n@()')


def renamed(x, u, s):
    if isinstance(x, dict):
        return {k: renamed(v, u, s) for k, v in x.items()}
    if isinstance(x, list):
        return [renamed(v, u, s) for v in x]
    return x.replace(u, s) if isinstance(x, str) else x


def reuse(ctx, bs):
    """Two texts that use one name: the model of the second is that of the text with a fresh name"""
    one = ctx.pick('one', USES)
    two = ctx.pick('two', USES)
    k = ctx.choice('k', 3)
    name = ('qz', 'qzargs', 'qzargsQzArgsqz')[k] + ctx.str('c', 1, 'aQ_3')
    fresh = ('uw', 'uwargs', 'uwargsUwArgsuw')[k]
    want = renamed(parse(bs, two.replace('@', fresh)), fresh, name)
    first = parse(bs, one.replace('@', name))
    if ctx.flag('spoil') and first != 'rejected':
        spoil(first)
    if ctx.flag('same'):
        # both in one text
        got = parse(bs, 'zz = 1\n' + two.replace('@', name))
        if got != 'rejected':
            got = {'statements': got['statements'][1:]}
    else:
        got = parse(bs, two.replace('@', name))
    ctx.reach('rejected' if want == 'rejected' else 'model')
    ctx.check(got == want, lambda: f'{two!r} after {one!r} with @ = {name}: {show(got)}, alone {show(want)}')


def spoil(x):
    if isinstance(x, dict):
        for v in list(x.values()):
            spoil(v)
        x.clear()
    elif isinstance(x, list):
        for v in list(x):
            spoil(v)
        x.clear()


def expression_state(ctx, bs):
    """parse_expression of symbolic text, twice, with other calls in between; outer blanks do not matter"""
    def px(t):
        try:
            return bs.parser.parse_expression(t)
        except bs.parser.BareScriptParserError:
            return 'rejected'
    n = ctx.choice('n', ctx.params['n']) + 1
    text = ctx.str('t', n, "ab1 ()+*!',")
    a = px(text)
    keep = snapshot(a)
    px(ctx.pick('e', EXPRS))
    pad = ctx.pick('pad', ('', '  ', '\t'))
    tail = ctx.pick('tail', ('', ' \t'))
    b = px(pad + text + tail)
    ctx.reach('rejected' if a == 'rejected' else 'model')
    ctx.check(b == keep, lambda: f'{show(text)}: {show(keep)}, with blanks around and other calls between {show(b)}')
    if a != 'rejected':
        spoil(b)
        ctx.check(a == keep and px(text) == keep, lambda: f'{show(text)}: models share parts')


HARNESSES = [
    Harness(chars, weight=1.5, order='random', strata=2, quick={'n': 4}, thorough={'n': 6}, bounds='<= n characters'),
    Harness(odd, weight=0.7, order='random', quick={'n': 3}, thorough={'n': 4}, bounds='<= n characters of 9 that are line ends elsewhere'),
    Harness(tokens, weight=1.5, order='random', strata=2, quick={'n': 2}, thorough={'n': 3}, bounds='<= n logical lines of 34 token sequences'),
    Harness(programs, order='random', quick={'budget': 5}, thorough={'budget': 8}, bounds='<= budget nodes'),
    Harness(shipped, order='random', bounds='7 shipped scripts'),
    Harness(state, order='random', quick={'n': 3}, thorough={'n': 4}, bounds='<= n lines, 6 texts in between'),
    Harness(reuse, weight=0.7, order='random', bounds='29 x 29 texts, names of 2, 6 and 14 letters'),
    Harness(expression_state, weight=0.7, quick={'n': 3}, thorough={'n': 4}, bounds='<= n characters'),
]
QUICK_SECONDS = 75
