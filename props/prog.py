"""Structured programs: generation by forked choices, source text, and a big-step reference interpreter (C01, C06, C07, C09, C10)."""

from props.common import ref_truthy, same


class Gen:
    """Program shapes. Every node is a forked choice; node budget and depth are the bounds"""

    conds = ('call', 'lt', 'not')
    while_conds = ('call', 'lt', 'true')

    def __init__(self, ctx, budget, depth, kinds, top_kinds=(), fn_budget=0, maxblock=3):
        self.ctx = ctx
        self.budget = budget
        self.depth = depth
        self.kinds = kinds
        self.top_kinds = tuple(top_kinds)
        self.maxblock = maxblock
        self.log_id = 0
        self.loop_id = 0
        self.fns = 0
        self.indexes = []

    def block(self, depth, loop, fn, minimum=0):
        out = []
        n = 0
        while self.budget > 0 and n < self.maxblock:
            if n >= minimum and not self.ctx.flag('more'):
                break
            out.append(self.stmt(depth, loop, fn))
            n += 1
        return out

    def cond(self):
        return self.ctx.pick('cond', self.conds)

    def stmt(self, depth, loop, fn):
        self.budget -= 1
        kinds = [k for k in self.kinds if (depth < self.depth or k not in ('if', 'while', 'for')) and (loop or k not in ('break', 'continue'))]
        if fn is None:
            kinds += [k for k in self.top_kinds if k != 'def' or self.fns < 2]
        kind = self.ctx.pick('kind', kinds)
        if kind == 'log':
            self.log_id += 1
            return ('log', f'L{self.log_id}')
        if kind == 'show':
            return ('show', self.ctx.pick('v', ('x', 'y', *self.indexes)))
        if kind == 'set':
            return ('set', self.ctx.pick('t', ('x', 'y')), self.ctx.pick('e', ('x+1', 'y', 'xy')))
        if kind == 'return':
            return ('return', self.ctx.pick('r', (None, 'x')))
        if kind in ('break', 'continue'):
            return (kind,)
        if kind == 'call':
            return ('call', self.ctx.pick('f', ('f0', 'f1') if fn is None else ('f1',)), self.ctx.pick('t', (None, 'x')))
        if kind == 'def':
            name = f'f{self.fns}'
            self.fns += 1
            return ('def', name, self.block(depth, False, name))
        if kind == 'if':
            branches = [(self.cond(), self.block(depth + 1, loop, fn))]
            while self.budget > 0 and len(branches) < 3 and self.ctx.flag('elif'):
                self.budget -= 1
                branches.append((self.cond(), self.block(depth + 1, loop, fn)))
            els = self.block(depth + 1, loop, fn) if self.ctx.flag('else') else None
            return ('if', branches, els)
        if kind == 'while':
            return ('while', self.ctx.pick('wc', self.while_conds), self.block(depth + 1, True, fn))
        if kind == 'for':
            self.loop_id += 1
            var, index = self.ctx.pick('fv', ('x', 'v')), f'i{self.loop_id}' if self.ctx.flag('ix') else None
            if index is None:
                return ('for', var, None, self.block(depth + 1, True, fn))
            self.indexes.append(index)
            body = self.block(depth + 1, True, fn)
            self.indexes.pop()
            return ('for', var, index, body)
        raise ValueError(kind)


CONDS = {'call': 'cc()', 'lt': 'x < 2', 'not': '!x', 'true': 'true', 'notcall': '!cc()', 'group': '(cc())', 'and': 'cc() && cc()',
         'or': 'cc() || x < 2', 'ifcall': 'if(cc(), cc(), x)'}
EXPRS = {'x+1': 'x + 1', 'y': 'y', 'xy': 'x * y'}


def lines_of(block, ind=0):
    """Source lines of a block"""
    out = []
    pad = '    ' * ind
    for s in block:
        k = s[0]
        if k == 'log':
            out.append(f"{pad}systemLog('{s[1]}')")
        elif k == 'show':
            out.append(f'{pad}show({s[1]})')
        elif k == 'set':
            out.append(f'{pad}{s[1]} = {EXPRS[s[2]]}')
        elif k == 'return':
            out.append(pad + ('return' if s[1] is None else f'return {s[1]}'))
        elif k in ('break', 'continue'):
            out.append(pad + k)
        elif k == 'call':
            out.append(pad + (f'{s[2]} = ' if s[2] else '') + f'{s[1]}(y)')
        elif k == 'def':
            out.append(f'{pad}function {s[1]}(x):')
            out.extend(lines_of(s[2], ind + 1))
            out.append(pad + 'endfunction')
        elif k == 'if':
            for i, (c, b) in enumerate(s[1]):
                out.append(f'{pad}{"elif" if i else "if"} {CONDS[c]}:')
                out.extend(lines_of(b, ind + 1))
            if s[2] is not None:
                out.append(pad + 'else:')
                out.extend(lines_of(s[2], ind + 1))
            out.append(pad + 'endif')
        elif k == 'while':
            out.append(f'{pad}while {CONDS[s[1]]}:')
            out.extend(lines_of(s[2], ind + 1))
            out.append(pad + 'endwhile')
        elif k == 'for':
            out.append(f'{pad}for {s[1]}{", " + s[2] if s[2] else ""} in aa():')
            out.extend(lines_of(s[3], ind + 1))
            out.append(pad + 'endfor')
    return out


class Fuel(BaseException):
    pass


class Undefined(Exception):
    pass


class World:
    """Outcomes of the host calls, shared by the reference and the real run, each with its own position"""

    def __init__(self, ctx, conds=6, arrays=3, arrlen=2, typed=None):
        self.ctx = ctx
        self.typed = typed
        self.cmax = conds
        self.amax = arrays
        self.arrlen = arrlen
        self.outcomes = []
        self.arrays = []

    def outcome(self, i):
        if i >= self.cmax:
            raise Fuel()
        while len(self.outcomes) <= i:
            name = f'q{len(self.outcomes)}'
            self.outcomes.append(self.ctx.int(name, 0, 1) if self.typed is None else self.typed(self.ctx, name))
        return self.outcomes[i]

    def array(self, i):
        if i >= self.amax:
            raise Fuel()
        while len(self.arrays) <= i:
            n = len(self.arrays)
            self.arrays.append([self.ctx.int(f'a{n}.{j}', 0, 2) for j in range(self.ctx.choice(f'an{n}', self.arrlen + 1))])
        return self.arrays[i]


class Ref:
    """Direct structured reading"""

    def __init__(self, world, globals_, fuel=60):
        self.w = world
        self.g = globals_
        self.fns = {}
        self.trace = []
        self.nc = 0
        self.na = 0
        self.fuel = fuel

    def get(self, name, loc):
        return loc[name] if loc is not None and name in loc else self.g.get(name)

    def put(self, name, value, loc):
        (self.g if loc is None else loc)[name] = value

    def cond(self, c, loc):
        if c == 'call':
            self.nc += 1
            return ref_truthy(self.w.outcome(self.nc - 1))
        if c == 'notcall':
            return not self.cond('call', loc)
        if c == 'group':
            return self.cond('call', loc)
        if c == 'and':
            return self.cond('call', loc) and self.cond('call', loc)
        if c == 'or':
            return self.cond('call', loc) or self.cond('lt', loc)
        if c == 'ifcall':
            return self.cond('call', loc) if self.cond('call', loc) else ref_truthy(self.get('x', loc))
        if c == 'lt':
            x = self.get('x', loc)
            return True if x is None else x < 2
        if c == 'not':
            return not ref_truthy(self.get('x', loc))
        return True

    def num(self, e, loc):
        x, y = self.get('x', loc), self.get('y', loc)
        if e == 'x+1':
            return None if x is None else x + 1
        if e == 'y':
            return y
        return None if x is None or y is None else x * y

    def block(self, stmts, loc):
        for s in stmts:
            r = self.stmt(s, loc)
            if r is not None:
                return r
        return None

    def stmt(self, s, loc):
        self.fuel -= 1
        if self.fuel < 0:
            raise Fuel()
        k = s[0]
        if k == 'log':
            self.trace.append(('log', s[1]))
        elif k == 'show':
            self.trace.append(('show', self.get(s[1], loc)))
        elif k == 'set':
            self.put(s[1], self.num(s[2], loc), loc)
        elif k == 'return':
            return ('return', None if s[1] is None else self.get(s[1], loc))
        elif k in ('break', 'continue'):
            return (k, None)
        elif k == 'def':
            self.fns[s[1]] = s[2]
        elif k == 'call':
            arg = self.get('y', loc)
            if s[1] not in self.fns:
                raise Undefined(s[1])
            r = self.block(self.fns[s[1]], {'x': arg})
            if s[2]:
                self.put(s[2], r[1] if r is not None else None, loc)
        elif k == 'if':
            for c, b in s[1]:
                if self.cond(c, loc):
                    return self.block(b, loc)
            if s[2] is not None:
                return self.block(s[2], loc)
        elif k == 'while':
            while self.cond(s[1], loc):
                self.fuel -= 1
                if self.fuel < 0:
                    raise Fuel()
                r = self.block(s[2], loc)
                if r is not None:
                    if r[0] == 'break':
                        break
                    if r[0] == 'return':
                        return r
        elif k == 'for':
            self.na += 1
            arr = self.w.array(self.na - 1)
            for i, v in enumerate(list(arr)):
                if s[2]:
                    self.put(s[2], i, loc)
                self.put(s[1], v, loc)
                r = self.block(s[3], loc)
                if r is not None:
                    if r[0] == 'break':
                        break
                    if r[0] == 'return':
                        return r
        return None


def host(world, trace):
    """Host functions of the real run"""
    pos = {'c': 0, 'a': 0}

    def cc(args, options):
        pos['c'] += 1
        return world.outcome(pos['c'] - 1)

    def aa(args, options):
        pos['a'] += 1
        return list(world.array(pos['a'] - 1))

    def show(args, options):
        trace.append(('show', args[0]))

    return {'cc': cc, 'aa': aa, 'show': show}


def user_vars(g, names=('x', 'y', 'v', 'i1', 'i2', 'i3', 'i4')):
    return {k: g[k] for k in names if k in g}


def same_trace(a, b):
    return len(a) == len(b) and all(x[0] == y[0] and same(x[1], y[1]) for x, y in zip(a, b))
