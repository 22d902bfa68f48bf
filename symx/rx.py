"""Regular expression matching on symbolic strings: backtracking over CPython's own parse tree of the pattern."""

import re
import re._constants as sc
import re._parser as sp

from .vals import SymStr, SymChar, elem_test, elem_eq, elems, pin

_compiled = {}


def _category(cat):
    pats = {
        sc.CATEGORY_DIGIT: r'\d', sc.CATEGORY_NOT_DIGIT: r'\D',
        sc.CATEGORY_SPACE: r'\s', sc.CATEGORY_NOT_SPACE: r'\S',
        sc.CATEGORY_WORD: r'\w', sc.CATEGORY_NOT_WORD: r'\W'
    }
    return pats[cat]


def _single(op, av, flags):
    """(key, pred) of a one-character node, decided by re itself"""
    if op is sc.LITERAL:
        text = re.escape(chr(av))
    elif op is sc.NOT_LITERAL:
        text = f'[^{_cls(av)}]'
    elif op is sc.ANY:
        text = '.'
    else:
        parts = []
        neg = ''
        for o, a in av:
            if o is sc.NEGATE:
                neg = '^'
            elif o is sc.LITERAL:
                parts.append(_cls(a))
            elif o is sc.RANGE:
                parts.append(f'{_cls(a[0])}-{_cls(a[1])}')
            elif o is sc.CATEGORY:
                parts.append(_category(a))
            else:
                raise NotImplementedError(str(o))
        text = f'[{neg}{"".join(parts)}]'
    keep = flags & (re.I | re.S | re.A)
    rx = re.compile(text, keep)
    key = ('re', text, int(keep))
    if op is sc.LITERAL and not keep & re.I:
        lit = chr(av)
        return key, lambda ch: ch == lit
    return key, lambda ch: rx.fullmatch(ch) is not None


def _cls(cp):
    ch = chr(cp)
    return '\\' + ch if ch in '\\]^-[&~|' else ch


class Prog:
    def __init__(self, pattern):
        self.re = pattern
        self.tree = sp.parse(pattern.pattern, pattern.flags & ~re.U if isinstance(pattern.pattern, str) else 0)
        self.ngroups = pattern.groups
        self.m = self._seq(list(self.tree), pattern.flags, lambda st, i, g: (i, g))

    def _seq(self, nodes, flags, k):
        for op, av in reversed(nodes):
            k = self._node(op, av, flags, k)
        return k

    def _node(self, op, av, flags, k):
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
            key, pred = _single(op, av, flags)

            def m_single(st, i, g):
                if i >= len(st) or not elem_test(st[i], key, pred):
                    return None
                return k(st, i + 1, g)
            return m_single
        if op is sc.BRANCH:
            alts = [self._seq(list(x), flags, k) for x in av[1]]

            def m_branch(st, i, g):
                for a in alts:
                    r = a(st, i, g)
                    if r is not None:
                        return r
                return None
            return m_branch
        if op is sc.SUBPATTERN:
            group, add, dele, p = av
            fl = (flags | add) & ~dele
            if group is None:
                return self._seq(list(p), fl, k)

            def close(st, i, g):
                start = g[('o', group)]
                g2 = dict(g)
                g2[group] = (start, i)
                g2['last'] = group
                return k(st, i, g2)
            inner = self._seq(list(p), fl, close)

            def m_group(st, i, g):
                g2 = dict(g)
                g2[('o', group)] = i
                return inner(st, i, g2)
            return m_group
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, p = av
            nodes = list(p)
            hi = None if hi is sc.MAXREPEAT else hi
            greedy = op is sc.MAX_REPEAT
            if len(nodes) == 1 and nodes[0][0] in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
                key, pred = _single(nodes[0][0], nodes[0][1], flags)

                def m_rep1(st, i, g):
                    n = 0
                    while n < lo:
                        if i + n >= len(st) or not elem_test(st[i + n], key, pred):
                            return None
                        n += 1
                    if greedy:
                        while (hi is None or n < hi) and i + n < len(st) and elem_test(st[i + n], key, pred):
                            n += 1
                        while n >= lo:
                            r = k(st, i + n, g)
                            if r is not None:
                                return r
                            n -= 1
                        return None
                    while True:
                        r = k(st, i + n, g)
                        if r is not None:
                            return r
                        if (hi is not None and n >= hi) or i + n >= len(st) or not elem_test(st[i + n], key, pred):
                            return None
                        n += 1
                return m_rep1

            # general repeat: the continuation state (count, start) travels in the groups dict
            tag = ('r', id(p))
            box = []

            def after(st, i, g):
                n, start = g[tag]
                if i == start and n + 1 >= lo:
                    return leave(st, i, g)         # no progress: an empty iteration is the last one
                return step(st, i, g, n + 1)

            def leave(st, i, g):
                g2 = dict(g)
                g2.pop(tag, None)
                outer = g2.pop(('s', tag), None)
                if outer is not None:
                    g2[tag] = outer
                return k(st, i, g2)

            def enter(st, i, g, n):
                g2 = dict(g)
                g2[tag] = (n, i)
                return box[0](st, i, g2)

            def step(st, i, g, n):
                if n < lo:
                    return enter(st, i, g, n)
                if greedy:
                    if hi is None or n < hi:
                        r = enter(st, i, g, n)
                        if r is not None:
                            return r
                    return leave(st, i, g)
                r = leave(st, i, g)
                if r is not None:
                    return r
                if hi is None or n < hi:
                    return enter(st, i, g, n)
                return None
            box.append(self._seq(nodes, flags, after))

            def m_rep(st, i, g):
                if tag in g:
                    g = dict(g)
                    g[('s', tag)] = g[tag]
                return step(st, i, g, 0)
            return m_rep
        if op is sc.AT:
            def at(st, i):
                if av is sc.AT_BEGINNING:
                    if flags & re.M:
                        return i == 0 or elem_test(st[i - 1], 'lf', lambda ch: ch == '\n')
                    return i == 0
                if av is sc.AT_BEGINNING_STRING:
                    return i == 0
                if av is sc.AT_END_STRING:
                    return i == len(st)
                if av is sc.AT_END:
                    if i == len(st):
                        return True
                    if flags & re.M:
                        return elem_test(st[i], 'lf', lambda ch: ch == '\n')
                    return i == len(st) - 1 and elem_test(st[i], 'lf', lambda ch: ch == '\n')
                if av in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
                    rx = re.compile(r'\w', flags & re.A)
                    def w(j):
                        return 0 <= j < len(st) and elem_test(st[j], ('w', int(flags & re.A)), lambda ch: rx.match(ch) is not None)
                    b = w(i - 1) != w(i)
                    return b if av is sc.AT_BOUNDARY else (not b and len(st) > 0)
                raise NotImplementedError(str(av))
            return lambda st, i, g: k(st, i, g) if at(st, i) else None
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            direction, p = av
            inner = self._seq(list(p), flags, lambda st, i, g: (i, g))
            width = p.getwidth()[0] if direction < 0 else 0

            def m_assert(st, i, g):
                if i - width < 0:
                    r = None
                else:
                    r = inner(st, i - width, g)
                if op is sc.ASSERT:
                    return None if r is None else k(st, i, r[1])
                return k(st, i, g) if r is None else None
            return m_assert
        if op is sc.GROUPREF:
            def m_ref(st, i, g):
                if av not in g:
                    return None
                a, b = g[av]
                if i + b - a > len(st):
                    return None
                for n in range(b - a):
                    if not elem_eq(st[a + n], st[i + n]):
                        return None
                return k(st, i + b - a, g)
            return m_ref
        if op is sc.ATOMIC_GROUP or op is sc.POSSESSIVE_REPEAT:
            nodes = list(av) if op is sc.ATOMIC_GROUP else [(sc.MAX_REPEAT, av)]
            inner = self._seq(nodes, flags, lambda st, i, g: (i, g))

            def m_atomic(st, i, g):
                r = inner(st, i, g)
                return None if r is None else k(st, r[0], r[1])
            return m_atomic
        raise NotImplementedError(str(op))


def prog(pattern):
    p = _compiled.get(pattern)
    if p is None:
        p = _compiled[pattern] = Prog(pattern)
    return p


class SymMatch:
    """re.Match look-alike"""
    def __init__(self, pattern, string, pos, endpos, start, end, groups):
        self.re = pattern
        self.string = string
        self.pos = pos
        self.endpos = endpos
        self._g = {0: (start, end)}
        for k, v in groups.items():
            if isinstance(k, int):
                self._g[k] = v
        self.lastindex = groups.get('last')

    def _ix(self, g):
        if isinstance(g, str):
            return self.re.groupindex[g]
        if not 0 <= g <= self.re.groups:
            raise IndexError('no such group')
        return g

    def span(self, g=0):
        return self._g.get(self._ix(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _one(self, g, default=None):
        a, b = self.span(g)
        return default if a < 0 else self.string[a:b]

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    def __getitem__(self, g):
        return self._one(g)

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._one(v, default) for k, v in self.re.groupindex.items()}

    def expand(self, template):
        return expand(template, self)


def expand(template, m):
    parts = sp.parse_template(template, m.re)
    out = ''
    for part in parts:
        if isinstance(part, int):
            out = out + (m.group(part) or '')
        elif part:
            out = out + part
    return out


def _try(pattern, string, st, i, pos, endpos, full=False, nonempty=False):
    p = prog(pattern)
    if full or nonempty:
        raise NotImplementedError
    r = p.m(st, i, {})
    if r is None:
        return None
    return SymMatch(pattern, string, pos, endpos, i, r[0], r[1])


def _fullprog(pattern):
    key = ('full', pattern)
    p = _compiled.get(key)
    if p is None:
        p = Prog.__new__(Prog)
        p.re = pattern
        p.tree = sp.parse(pattern.pattern, pattern.flags & ~re.U)
        p.ngroups = pattern.groups
        p.m = p._seq(list(p.tree), pattern.flags, lambda st, i, g: (i, g) if i == len(st) else None)
        _compiled[key] = p
    return p


def match(pattern, string, pos=0, endpos=None):
    pos = pin(pos)
    endpos = len(string) if endpos is None else min(pin(endpos), len(string))
    st = elems(string)[:endpos]
    if pos > len(st):
        return None
    return _try(pattern, string, st, pos, pos, endpos)


def fullmatch(pattern, string, pos=0, endpos=None):
    endpos = len(string) if endpos is None else min(pin(endpos), len(string))
    st = elems(string)[:endpos]
    r = _fullprog(pattern).m(st, pin(pos), {})
    return None if r is None else SymMatch(pattern, string, pos, endpos, pin(pos), r[0], r[1])


def search(pattern, string, pos=0, endpos=None):
    pos = pin(pos)
    endpos = len(string) if endpos is None else min(pin(endpos), len(string))
    st = elems(string)[:endpos]
    for i in range(pos, len(st) + 1):
        m = _try(pattern, string, st, i, pos, endpos)
        if m is not None:
            return m
    return None


def _nonempty_at(pattern, string, st, i):
    key = ('ne', pattern)
    p = _compiled.get(key)
    if p is None:
        p = Prog.__new__(Prog)
        p.re = pattern
        p.tree = sp.parse(pattern.pattern, pattern.flags & ~re.U)
        p.ngroups = pattern.groups
        p.m = p._seq(list(p.tree), pattern.flags, lambda s, j, g: (j, g) if j != g['@'] else None)
        _compiled[key] = p
    r = p.m(st, i, {'@': i})
    return None if r is None else SymMatch(pattern, string, 0, len(st), i, r[0], r[1])


def finditer(pattern, string, pos=0, endpos=None):
    st = elems(string)
    i = pin(pos)
    last_empty = -1
    while i <= len(st):
        if i == last_empty:
            m = _nonempty_at(pattern, string, st, i)
        else:
            m = _try(pattern, string, st, i, 0, len(st))
        if m is None:
            i += 1
            continue
        yield m
        i = m.end()
        if m.end() == m.start():
            last_empty = i      # after an empty match the next one must advance


def findall(pattern, string, pos=0, endpos=None):
    out = []
    for m in finditer(pattern, string, pos):
        if pattern.groups == 0:
            out.append(m.group())
        elif pattern.groups == 1:
            out.append(m.group(1) or '')
        else:
            out.append(m.groups(''))
    return out


def subn(pattern, repl, string, count=0):
    out = ''
    last = 0
    n = 0
    for m in finditer(pattern, string):
        if count and n >= count:
            break
        out = out + string[last:m.start()]
        out = out + (repl(m) if callable(repl) else expand(repl, m))
        last = m.end()
        n += 1
    return out + string[last:], n


def sub(pattern, repl, string, count=0):
    return subn(pattern, repl, string, count)[0]


def split(pattern, string, maxsplit=0):
    out = []
    last = 0
    n = 0
    for m in finditer(pattern, string):
        if maxsplit and n >= maxsplit:
            break
        out.append(string[last:m.start()])
        out.extend(m.groups())
        last = m.end()
        n += 1
    out.append(string[last:])
    return out


METHODS = {
    'match': match, 'fullmatch': fullmatch, 'search': search, 'finditer': finditer, 'findall': findall,
    'sub': sub, 'subn': subn, 'split': split
}


__symx__ = True
