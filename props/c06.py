"""C06: the parser is total and its diagnostics point at the offending source"""

from symx.harness import Harness
from props.common import show

BOUNDS = ('texts of <= 5 (quick) / 6 (thorough) symbolic characters over 13 symbols; sequences of <= 5 / 6 lines of 24 kinds; 11 statement contexts around <= 3 / 4 symbolic expression '
          'characters; caret arithmetic for 14 line lengths up to 400 and every column; nesting up to 20000')
ASSUMPTIONS = ['when several blocks are open at the end any one of them may be named', 'label, jump and include lines are free of expressions']


def parse(bs, text, start=None):
    """(model, error)"""
    try:
        return (bs.parser.parse_script(text) if start is None else bs.parser.parse_script(text, start)), None
    except bs.parser.BareScriptParserError as e:
        return None, e


def inside(e):
    return isinstance(e.column_number, int) and 1 <= e.column_number <= len(e.line) + 1


def logical_lines(text):
    """[(first physical line number, text, continued)] of an LF text; None when a continuation dangles"""
    out = []
    pend = None
    first = 0
    for i, raw in enumerate(text.split('\n')):
        body = raw.strip(' ')
        if len(body) == 0 or body[0] == '#':
            continue
        cont = body[-1] == '\\'
        piece = raw.rstrip(' ')
        piece = piece[:-1].rstrip(' ') if cont else raw
        if pend is None:
            pend = piece
            first = i + 1
            joined = False
        else:
            pend = pend + ' ' + piece.strip(' ')
            joined = True
        if not cont:
            out.append((first, pend, joined))
            pend = None
    return out, pend is not None, first


def chars(ctx, bs):
    """Any short text: a model with one statement per logical line, or a parser error inside the right line"""
    n = ctx.choice('n', ctx.params['n'] + 1)
    text = ctx.str('t', n, "ab=:#\\ \n(1'")
    start = ctx.int('start', 1, 3)
    model, err = parse(bs, text, start)
    lines, dangling, first = logical_lines(text)
    ctx.reach('error' if err else 'model')
    if err is None:
        ctx.check(not dangling, lambda: f'{show(text)}: accepted with a dangling continuation')
        ctx.check(len(model['statements']) == len(lines), lambda: f'{show(text)}: {len(lines)} lines, {len(model["statements"])} statements')
        return
    ctx.check(inside(err), lambda: f'{show(text)}: column {err.column_number} of {show(err.line)}')
    known = [ln for ln in lines if ln[0] + start - 1 == err.line_number]
    if not known:
        ctx.check(dangling and err.line_number == first + start - 1, lambda: f'{show(text)}: reported line {err.line_number} (start {show(start)})')
        return
    ctx.check(same_line(known[0], err.line), lambda: f'{show(text)}: reported text {show(err.line)}, line is {show(known[0][1])}')
    # the lines before it are fine: the first bad line is reported
    for ln in lines:
        if ln[0] == known[0][0]:
            break
        ok = parse(bs, ln[1])[1] is None
        ctx.check(ok, lambda: f'{show(text)}: line {ln[0]} is wrong too, but line {err.line_number} is reported')


def same_line(ln, text):
    return ln[1] == text if not ln[2] else ln[1].strip(' ') == text.strip(' ')


# ---- lines and blocks --------------------------------------------------------------------------------------------------

KINDS = ('set', 'expr', 'label', 'jump', 'jumpif', 'return', 'include', 'comment', 'blank', 'if', 'elif', 'else', 'endif', 'while', 'endwhile', 'for', 'endfor', 'function', 'endfunction',
         'break', 'continue', 'bad', 'badif', 'badfor')
TEXT = {
    'set': 'x{i} = {i}', 'expr': 'f{i}x({i})', 'label': 'l{i}:', 'jump': 'jump l{i}', 'jumpif': 'jumpif (x{i}) l{i}', 'return': 'return x{i}', 'include': "include 'u{i}'", 'comment': '# c{i} if',
    'blank': '  ', 'if': 'if c{i}:', 'elif': 'elif c{i}:', 'else': 'else:', 'endif': 'endif', 'while': 'while c{i}:', 'endwhile': 'endwhile', 'for': 'for v{i}, k{i} in a{i}:', 'endfor': 'endfor',
    'function': 'function g{i}(p{i}):', 'endfunction': 'endfunction', 'break': 'break', 'continue': 'continue', 'bad': 'x{i} = 1 +* 2', 'badif': 'if (c{i}:', 'badfor': 'for v{i} in a{i} b:'
}
MARK = {'set': 'x{i}', 'expr': 'f{i}x', 'label': 'l{i}', 'jump': 'l{i}', 'jumpif': 'l{i}', 'return': 'x{i}', 'include': 'u{i}', 'if': 'c{i}', 'elif': 'c{i}', 'while': 'c{i}', 'for': 'a{i}', 'function': 'g{i}'}


def ref_structure(kinds):
    """(set of acceptable error line indexes, None when valid)"""
    stack = []          # (kind, index, else seen)
    floor = None
    for i, k in enumerate(kinds):
        base = 0 if floor is None else floor[1]
        top = stack[-1] if len(stack) > base else None
        if k in ('bad', 'badif', 'badfor'):
            return {i}
        if k in ('if', 'while', 'for'):
            stack.append([k, i, False])
        elif k in ('elif', 'else'):
            if top is None or top[0] != 'if' or top[2]:
                return {i}
            top[2] = k == 'else'
        elif k in ('endif', 'endwhile', 'endfor'):
            if top is None or top[0] != k[3:]:
                return {i}
            stack.pop()
        elif k in ('break', 'continue'):
            if not any(s[0] != 'if' for s in stack[base:]):
                return {i}
        elif k == 'function':
            if floor is not None:
                return {i}
            floor = (i, len(stack))
        elif k == 'endfunction':
            if floor is None:
                return {i}
            if len(stack) > base:
                return {s[1] for s in stack[base:]}
            floor = None
    open_ = {s[1] for s in stack}
    if floor is not None:
        open_.add(floor[0])
    return open_ or None


def markers(x, out):
    """Names in the model in statement order"""
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ('name', 'variable', 'label', 'url') and isinstance(v, str):
                out.append(v)
            else:
                markers(v, out)
    elif isinstance(x, list):
        for v in x:
            markers(v, out)
    return out


def build(ctx, n, cont=False):
    kinds, lines, starts = [], [], []
    for i in range(n):
        k = ctx.pick('kind', KINDS)
        kinds.append(k)
        starts.append(len(lines))
        t = TEXT[k].replace('{i}', str(i))
        if cont and ' ' in t.strip() and k != 'comment' and ctx.flag('cont'):
            a, b = t.split(' ', 1)
            lines.append(a + ' \\')
            if ctx.flag('inner'):
                lines.append('  # comment')
            lines.append('    ' + b)
        else:
            lines.append('  ' + t if ctx.params.get('indent') and i % 2 else t)
    return kinds, lines, starts


def check_soup(ctx, bs, kinds, lines, starts, start, text):
    bad = ref_structure(kinds)
    model, err = parse(bs, text, start)
    src = '\n'.join(lines)
    ctx.reach('error' if err else 'model')
    if bad is None:
        ctx.check(err is None, lambda: f'rejected ({err}):\n{src}')
        found = markers(model, [])
        pos = -1
        for i, k in enumerate(kinds):
            if k in MARK:
                m = MARK[k].replace('{i}', str(i))
                rest = found[pos + 1:]
                ctx.check(m in rest, lambda: f'line {i + 1} ({m}) is not in the model (in order):\n{src}')
                pos = pos + 1 + rest.index(m)
        return
    ctx.check(err is not None, lambda: f'accepted, but a line of {sorted(b + 1 for b in bad)} is wrong:\n{src}')
    ok = [b for b in bad if err.line_number == start + starts[b]]
    ctx.check(len(ok) == 1, lambda: f'reports line {err.line_number}, expected one of {[starts[b] + start for b in bad]}:\n{src}')
    k = kinds[ok[0]]
    ctx.check(err.line.replace(' ', '') == TEXT[k].replace('{i}', str(ok[0])).replace(' ', ''), lambda: f'reports text {err.line!r} for line {err.line_number}:\n{src}')
    ctx.check(inside(err), lambda: f'column {err.column_number} outside {err.line!r}')
    ctx.check(err.line in str(err) and f'line number {err.line_number}' in str(err), lambda: f'message {str(err)!r}')


def soup(ctx, bs):
    """Line sequences: accepted exactly when the blocks match; each line in the model; errors on the right line"""
    n = ctx.choice('n', ctx.params['n']) + 1
    kinds, lines, starts = build(ctx, n, ctx.params.get('cont', False))
    start = ctx.int('start', 1, 9)
    form = ctx.choice('form', 2) if ctx.params.get('forms') else 0
    check_soup(ctx, bs, kinds, lines, starts, start, '\n'.join(lines) if form == 0 else lines)


def nested(ctx, bs):
    """Longer sequences that open blocks first"""
    opened = [ctx.pick(f'open{i}', ('if', 'while', 'for', 'function')) for i in range(ctx.choice('o', 3) + 1)]
    rest = [ctx.pick(f'k{i}', ('set', 'else', 'elif', 'endif', 'endwhile', 'endfor', 'endfunction', 'break', 'continue', 'if')) for i in range(ctx.choice('n', ctx.params['n'] + 1))]
    kinds = opened + rest
    lines = [TEXT[k].replace('{i}', str(i)) for i, k in enumerate(kinds)]
    check_soup(ctx, bs, kinds, lines, list(range(len(lines))), 1, '\n'.join(lines))


PREFIX = ('# comment', '', '   ', 'y = 1', 'zz(2)', "  y = 'a' # b'"[:9])


def repeated(ctx, bs):
    """Equal lines are as many statements as there are lines"""
    kinds = ('set', 'expr', 'label', 'jump', 'return', 'include', 'comment')
    n = ctx.choice('n', ctx.params['n']) + 2
    which = [ctx.pick(f'k{i}', kinds) for i in range(n)]
    num = [ctx.choice(f'm{i}', 2) if which[i] == 'include' else 0 for i in range(n)]
    if ctx.flag('system'):
        text = {'include': 'include <u{i}>'}
    else:
        text = {}
    lines = [text.get(k, TEXT[k]).replace('{i}', str(j)) for k, j in zip(which, num)]
    src = '\n'.join(lines)
    model, err = parse(bs, src)
    ctx.reach()
    ctx.check(err is None, lambda: f'rejected ({err}):\n{src}')
    found = markers(model, [])
    want = [MARK[k].replace('{i}', str(j)) for k, j in zip(which, num) if k in MARK]
    ctx.check(found == want, lambda: f'the model has {found}, expected {want}:\n{src}')


def shift(ctx, bs):
    """Lines in front move the reported line and change nothing else"""
    kinds, lines, starts = build(ctx, ctx.choice('n', ctx.params['n']) + 1)
    ctx.assume(kinds[0] != 'include')
    pre = [ctx.pick('p', PREFIX) for _ in range(ctx.choice('np', 3) + 1)]
    m1, e1 = parse(bs, '\n'.join(lines))
    m2, e2 = parse(bs, '\n'.join(pre + lines))
    ctx.reach('error' if e1 else 'model')
    src = '\n'.join(pre + lines)
    ctx.check((e1 is None) == (e2 is None), lambda: f'{e1} / {e2}:\n{src}')
    k = len([p for p in pre if '=' in p or 'zz' in p])
    if e1 is None:
        ctx.check(m2['statements'][k:] == m1['statements'] and len(m2['statements']) == k + len(m1['statements']), lambda: f'model changed by the lines in front:\n{src}')
    else:
        ctx.check(e2.line_number == e1.line_number + len(pre), lambda: f'line {e1.line_number} becomes {e2.line_number} after {len(pre)} lines:\n{src}')
        ctx.check(e2.line == e1.line and e2.column_number == e1.column_number and e2.error == e1.error, lambda: f'{e1} becomes {e2}')


CONTEXTS = (('x = ', ''), ('', ''), ('if ', ':'), ('while ', ':'), ('for v in ', ':'), ('for v, k in ', ' :'), ('return ', ''), ('jumpif (', ') l'), ('jumpif  ( ', ')  l  '), ('x=', ''), ('elif ', ':'))


def columns(ctx, bs):
    """A wrong expression inside each statement: the column is the expression's own, at its place in the line"""
    pre, post = ctx.pick('c', CONTEXTS)
    pad = ctx.pick('pad', ('', '  '))
    n = ctx.choice('n', ctx.params['n']) + 1
    lead = ctx.pick('lead', ('', 'a + ', 'ff(b, '))
    hole = ctx.str('h', n, 'a1 ()+*')
    expr = lead + hole
    ctx.assume(hole[0] != ' ' and hole[-1] != ' ')
    if pre == '' and post == '':
        ctx.assume('=' not in expr)
    tail = ctx.pick('tail', ('', '', '   ', ' \t'))
    line = pad + pre + expr + post + tail
    before = ['if a:'] if pre == 'elif ' else []
    cont = ctx.flag('cont') and lead != '' and pre != ''
    if cont:
        text = '\n'.join(before + [pad + pre + lead + '\\', '   ' + hole + post + tail])
    else:
        text = '\n'.join(before + [line])
    try:
        bs.parser.parse_expression(expr)
        good = True
        own = None
    except bs.parser.BareScriptParserError as e:
        good = False
        own = e.column_number
        ctx.check(1 <= own <= len(expr) + 1 and e.line == expr, lambda: f'{show(expr)}: column {own}, line {show(e.line)}')
    model, err = parse(bs, text)
    ctx.reach('error' if not good else 'good')
    if good:
        if post != ':' and post != ' :' and pre != 'elif ':
            ctx.check(err is None, lambda: f'{show(line)} rejected: {err}')
            ctx.check(len(model['statements']) == 1, lambda: f'{show(line)}: {model}')
        else:
            ctx.check(err is not None and err.line_number == 1 and err.column_number == 1, lambda: f'open block: {err}')
        return
    ctx.check(err is not None, lambda: f'{show(line)} accepted: {model}')
    ctx.check(err.line_number == 1 + len(before), lambda: f'{show(text)}: line {err.line_number}')
    if cont:
        ctx.check(err.line.replace(' ', '').replace('\t', '') == line.replace(' ', '').replace('\t', ''), lambda: f'{show(text)}: text {show(err.line)}')
        off = err.line.find((lead + hole))
        ctx.assume(off >= 0)
    else:
        ctx.check(err.line == line, lambda: f'{show(text)}: text {show(err.line)}')
        off = len(pad) + len(pre)
    want = off + own
    # blanks in front of the expression belong to its text: the column may be that of the blanks
    low, high = (want, err.column_number) if want <= err.column_number else (err.column_number, want)
    ctx.check(low == high or err.line[low - 1:high - 1].strip(' \t') == '', lambda: f'{show(line)}: column {err.column_number}, expected {want} ({err.error})')


LENGTHS = (0, 1, 2, 60, 119, 120, 121, 122, 123, 179, 180, 181, 241, 400)


def caret(ctx, bs):
    """The caret sits under the reported character, elided or not"""
    n = ctx.pick('n', LENGTHS)
    line = ''.join([chr(0x4e00 + i) for i in range(n)])
    c = ctx.int('c', 1, n + 1)
    num = ctx.pick('num', (None, 7))
    prefix = ctx.pick('prefix', (None, 'Included from "x"'))
    e = bs.parser.BareScriptParserError('Oops', line, c, num, prefix)
    rows = str(e).split('\n')
    ctx.reach()
    ctx.check(len(rows) == (5 if prefix else 4) and rows[-1] == '', lambda: f'message {str(e)!r}')
    if prefix:
        ctx.check(rows[0] == prefix, lambda: f'prefix {rows[0]!r}')
    ctx.check(rows[-4] == ('Oops:' if num is None else 'Oops, line number 7:'), lambda: f'header {rows[-4]!r}')
    shown, mark = rows[-3], rows[-2]
    ctx.check(mark.strip(' ') == '^' and mark[-1] == '^', lambda: f'caret line {mark!r}')
    p = len(mark) - 1
    if c <= n:
        ctx.check(p < len(shown) and shown[p] == line[c - 1], lambda: f'length {n}, column {show(c)}: caret at {p} of {shown!r}')
    elif n:
        ctx.check(p == len(shown) and shown[p - 1] == line[-1], lambda: f'length {n}, column {show(c)}: caret at {p} of {shown!r}')
    ctx.check(e.line == line and e.column_number == c and e.line_number == num and e.error == 'Oops', 'attributes')
    if n <= 120:
        ctx.check(shown == line, 'short line elided')


def deep(ctx, bs):
    """Deep nesting ends in a model or a parser error"""
    open_, mid, close = ctx.pick('shape', (('(', 'a', ')'), ('!', 'a', ''), ('ff(', 'a', ')'), ('', 'a', '+a'), ('-', '1', ''), ('(', '', ''), ("'", 'a', '')))
    n = ctx.pick('n', (1, 50, 3000, 20000))
    pre, post = ctx.pick('c', CONTEXTS[:7])
    model, err = parse(bs, pre + open_ * n + mid + close * n + post)
    ctx.reach()
    if err is not None:
        ctx.check(err.line_number == 1 and inside(err), lambda: f'{open_} x {n}: line {err.line_number} column {err.column_number}')


HARNESSES = [
    Harness(chars, weight=1.5, quick={'n': 5}, thorough={'n': 7}, bounds='<= n characters'),
    Harness(soup, weight=1.5, order='random', strata=2, quick={'n': 3, 'indent': True}, thorough={'n': 5}, bounds='<= n lines of 24 kinds'),
    Harness(soup, 'continued', order='random', strata=2, quick={'n': 3, 'cont': True, 'forms': True}, thorough={'n': 4}, bounds='<= n logical lines, continued or not'),
    Harness(nested, order='random', quick={'n': 4}, thorough={'n': 6}, bounds='<= 3 openers, <= n further lines'),
    Harness(repeated, weight=0.5, order='random', quick={'n': 3}, thorough={'n': 5}, bounds='<= n + 1 equal or unequal lines of 7 kinds'),
    Harness(shift, order='random', quick={'n': 3}, thorough={'n': 4}, bounds='<= n lines after <= 3 lines'),
    Harness(columns, weight=1.5, order='random', quick={'n': 2}, thorough={'n': 4}, bounds='<= n symbolic characters'),
    Harness(caret, bounds='14 lengths, every column'),
    Harness(deep, weight=0.5, bounds='nesting 1 to 20000'),
]
QUICK_SECONDS = 75
