"""Symbolic proxies: subclasses of the host types carrying a concrete payload and a Z3 term."""

import math

import z3

from . import core
from .core import int_var

_KEEP = []
_uf = {}


def uf(name, n):
    f = _uf.get((name, n))
    if f is None:
        f = _uf[(name, n)] = z3.Function(name, *([z3.RealSort()] * (n + 1)))
    return f


def _ctx():
    return core.CUR


# ---- numbers ------------------------------------------------------------------------------------------------------------

def is_symnum(x):
    t = type(x)
    return t is SymInt or t is SymFloat


def grid(x):
    """(num term or int, den, vs) of a number; None for inf/nan; ('r', term, vs) for abstract reals"""
    t = type(x)
    if t is SymInt:
        return (x.t, 1, x.vs)
    if t is SymFloat:
        if x.t[0] == 'g':
            return (x.t[1], x.t[2], x.vs)
        return ('r', x.t[1], x.vs)
    if isinstance(x, int):
        return (int(x), 1, frozenset())
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            return None
        n, d = float(x).as_integer_ratio()
        return (n, d, frozenset())
    return None


def _real(g):
    if isinstance(g[0], str):
        return g[1]
    n, d, _ = g
    if isinstance(n, int):
        return z3.RealVal(f'{n}/{d}') if d != 1 else z3.RealVal(n)
    r = z3.ToReal(n)
    return r / d if d != 1 else r


def _isr(g):
    return isinstance(g[0], str)


_OPS = {
    'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b,
    'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b,
    'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b
}


def plain(x):
    """Concrete payload, without recording anything"""
    t = type(x)
    if t is SymInt:
        return x.v
    if t is SymFloat:
        return x.v
    if t is SymStr:
        return x.p
    return x


def _cmp(op, a, b):
    pa, pb = plain(a), plain(b)
    r = _OPS[op](pa, pb)
    ga, gb = grid(a), grid(b)
    if ga is None or gb is None:
        return r
    if _isr(ga) or _isr(gb):
        term = _OPS[op](_real(ga), _real(gb))
    else:
        na, da, _ = ga
        nb, db, _ = gb
        if da == db:
            term = _OPS[op](na, nb)
        else:
            term = _OPS[op](na * db, nb * da)
        if isinstance(term, bool):
            return term
    return _ctx().branch(term, r, ga[2] | gb[2])


def pin(x):
    """Concretise: the path is restricted to x == its concrete value (the other side stays to be explored)"""
    t = type(x)
    c = _ctx()
    if t is SymInt:
        if c is not None:
            c.stats['pins'] += 1
            c.pin_int(x.t, x.v, x.vs)
        return x.v
    if t is SymFloat:
        if c is None:
            return x.v
        c.stats['pins'] += 1
        d = x.t[2] if x.t[0] == 'g' else 3
        if d & (d - 1) == 0:
            n, d = x.v.as_integer_ratio()
            g = x.t
            k = n * g[2] // d
            c.pin_int(g[1], k, x.vs)
        else:
            pin_vars(x.vs)
        return x.v
    if t is SymStr:
        if c is not None:
            c.stats['pins'] += 1
            for e in x.es:
                if type(e) is SymChar:
                    c.pin_fd(e.var, e.val)
        return x.p
    h = getattr(t, '__sym_pin__', None)
    if h is not None:
        return h(x)
    return x


def pin_vars(vs):
    c = _ctx()
    for v in sorted(vs):
        if v in c.dom:
            c.pin_fd(v, c.inputs[v])
        else:
            c.pin_int(int_var(v), c.inputs[v], frozenset((v,)))


def _arith(op, a, b):
    """+ - *"""
    pa, pb = plain(a), plain(b)
    if op == '+':
        r = pa + pb
    elif op == '-':
        r = pa - pb
    else:
        r = pa * pb
    ga, gb = grid(a), grid(b)
    if ga is None or gb is None:
        return r
    vs = ga[2] | gb[2]
    if _isr(ga) or _isr(gb):
        x, y = _real(ga), _real(gb)
        t = x + y if op == '+' else (x - y if op == '-' else x * y)
        return SymFloat.make(r, ('r', t), vs)
    na, da, _ = ga
    nb, db, _ = gb
    if op == '*':
        t, d = na * nb, da * db
    else:
        if da != db:
            d = math.lcm(da, db)
            na = na * (d // da)
            nb = nb * (d // db)
        else:
            d = da
        t = na + nb if op == '+' else na - nb
    if isinstance(t, int):
        return r
    if isinstance(r, int):
        return SymInt.make(r, t, vs)
    return traced(op, a, b, SymFloat.make(r, ('g', t, d), vs))


def tree_of(x):
    """The double operations behind an inexact value"""
    t = type(x)
    if t is SymFloat:
        tr = getattr(x, 'tr', None)
        if tr is not None:
            return tr
        return ('n', x.t[1], x.t[2]) if x.t[0] == 'g' and x.t[2] & (x.t[2] - 1) == 0 else None
    if t is SymInt:
        return ('n', x.t, 1)
    return ('c', float(x))


def traced(op, a, b, r):
    d = r.t[2]
    if d & (d - 1):
        x, y = tree_of(a), tree_of(b)
        if x is not None and y is not None:
            r.tr = (op, x, y)
    return r


def _divide(a, b, what):
    """// % and /"""
    if is_symnum(b):
        b = pin(b)
    if b == 0:
        if what == '//':
            return plain(a) // 0
        if what == '%':
            return plain(a) % 0
        return plain(a) / 0
    pa, pb = plain(a), plain(b)
    r = pa // pb if what == '//' else (pa % pb if what == '%' else pa / pb)
    ga, gb = grid(a), grid(b)
    if ga is None or gb is None:
        return r
    vs = ga[2] | gb[2]
    if not vs:
        return r
    if _isr(ga) or _isr(gb) or not isinstance(gb[0], int):
        name = {'//': 'fdiv_floor', '%': 'fmod', '/': 'fdiv'}[what]
        return SymFloat.make(float(r), ('r', uf(name, 2)(_real(ga), _real(gb))), vs)
    na, da, _ = ga
    p, q, _ = gb
    num, den = na * q, da * p
    if den < 0:
        num, den = -num, -den
    if what == '/':
        return traced('/', a, b, SymFloat.make(r, ('g', num, den), vs))
    fl = num / den if not isinstance(num, int) else num // den       # z3 Int '/' is floor division for den > 0
    if what == '//':
        if isinstance(r, int):
            return SymInt.make(r, fl, vs)
        return SymFloat.make(r, ('g', fl, 1), vs)
    d = math.lcm(da, q)
    t = na * (d // da) - (p * (d // q)) * fl
    if isinstance(r, int):
        return SymInt.make(r, t, vs)
    return SymFloat.make(r, ('g', t, d), vs)


def _power(a, b):
    return pin(a) ** pin(b)


def _isnum(x):
    return isinstance(x, (int, float))


class _NumOps:
    __slots__ = ()

    def __eq__(self, o):
        return _cmp('eq', self, o) if _isnum(o) else NotImplemented

    def __ne__(self, o):
        return _cmp('ne', self, o) if _isnum(o) else NotImplemented

    def __lt__(self, o):
        return _cmp('lt', self, o) if _isnum(o) else NotImplemented

    def __le__(self, o):
        return _cmp('le', self, o) if _isnum(o) else NotImplemented

    def __gt__(self, o):
        return _cmp('gt', self, o) if _isnum(o) else NotImplemented

    def __ge__(self, o):
        return _cmp('ge', self, o) if _isnum(o) else NotImplemented

    def __bool__(self):
        return _cmp('ne', self, 0)

    def __hash__(self):
        return hash(pin(self))

    def __add__(self, o):
        return _arith('+', self, o) if _isnum(o) else NotImplemented

    def __radd__(self, o):
        return _arith('+', o, self) if _isnum(o) else NotImplemented

    def __sub__(self, o):
        return _arith('-', self, o) if _isnum(o) else NotImplemented

    def __rsub__(self, o):
        return _arith('-', o, self) if _isnum(o) else NotImplemented

    def __mul__(self, o):
        if _isnum(o):
            return _arith('*', self, o)
        if isinstance(o, (str, list, tuple)):
            return o * pin(self)
        return pin(self) * o

    def __rmul__(self, o):
        if _isnum(o):
            return _arith('*', o, self)
        return o * pin(self)

    def __truediv__(self, o):
        return _divide(self, o, '/') if _isnum(o) else NotImplemented

    def __rtruediv__(self, o):
        return _divide(o, self, '/') if _isnum(o) else NotImplemented

    def __floordiv__(self, o):
        return _divide(self, o, '//') if _isnum(o) else NotImplemented

    def __rfloordiv__(self, o):
        return _divide(o, self, '//') if _isnum(o) else NotImplemented

    def __mod__(self, o):
        return _divide(self, o, '%') if _isnum(o) else NotImplemented

    def __rmod__(self, o):
        return _divide(o, self, '%') if _isnum(o) else NotImplemented

    def __divmod__(self, o):
        return (self // o, self % o) if _isnum(o) else NotImplemented

    def __rdivmod__(self, o):
        return (o // self, o % self) if _isnum(o) else NotImplemented

    def __pow__(self, o, m=None):
        if m is not None:
            return pow(pin(self), pin(o), pin(m))
        return _power(self, o) if _isnum(o) else NotImplemented

    def __rpow__(self, o, m=None):
        return _power(o, self) if _isnum(o) else NotImplemented

    def __neg__(self):
        return _arith('-', 0, self) if type(self) is SymInt else _arith('*', self, -1.0)

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self < 0 else self

    def __repr__(self):
        return repr(pin(self))

    def __str__(self):
        return str(pin(self))

    def __format__(self, spec):
        return format(pin(self), pin(spec))

    def __reduce__(self):
        p = pin(self)
        return (type(p), (p,))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymInt(_NumOps):
    """Symbolic int. Not a subclass of int (a host float on the left would then compare and add without asking the proxy), but isinstance(x, int) holds"""
    __slots__ = ('v', 't', 'vs')
    __class__ = property(lambda self: int)

    @staticmethod
    def make(v, t, vs):
        s = object.__new__(SymInt)
        s.v = int(v)
        s.t = t
        s.vs = vs
        return s

    def __int__(self):
        return pin(self)

    def __index__(self):
        return pin(self)

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self

    imag = 0
    denominator = 1

    def __float__(self):
        return pin(to_float(self))

    def __round__(self, nd=None):
        if nd is None:
            return self
        return round(pin(self), pin(nd))

    def __trunc__(self):
        return self

    __floor__ = __trunc__
    __ceil__ = __trunc__

    def is_integer(self):
        return True

    def bit_length(self):
        return pin(self).bit_length()


for _n in ('and', 'or', 'xor', 'lshift', 'rshift'):
    def _mk(n):
        def f(self, o):
            return getattr(int, f'__{n}__')(pin(self), pin(o))

        def rf(self, o):
            return getattr(int, f'__{n}__')(pin(o), pin(self))
        return f, rf
    _f, _rf = _mk(_n)
    setattr(SymInt, f'__{_n}__', _f)
    setattr(SymInt, f'__r{_n}__', _rf)
SymInt.__invert__ = lambda self: ~pin(self)


EDGE = 2 ** 46


class SymFloat(_NumOps, float):
    """Symbolic finite float on a dyadic grid (exact), or an abstract real for inexact operations"""

    @staticmethod
    def make(v, t, vs):
        s = float.__new__(SymFloat, v)
        s.v = float(v)
        s.t = t
        s.vs = vs
        return s

    def __float__(self):
        return self.v

    def _edge(self):
        """The grid value is not exactly a double and lies (almost) on an integer: the rounding error decides, so the value is pinned"""
        n, d = self.t[1], self.t[2]
        if d & (d - 1) == 0:
            return False
        m = (2 * n + d) / (2 * d)
        dist = n - m * d
        room = z3.If(n >= 0, n, -n) + d
        v = self.v
        if not _ctx().branch(z3.And(dist * EDGE <= room, -room <= dist * EDGE), abs(v - math.floor(v + 0.5)) * EDGE <= abs(v) + 1, self.vs):
            return False
        c = _ctx()
        at = len(c.trace)
        pin_vars(self.vs)
        if getattr(self, 'tr', None) is not None:
            from . import fpedge
            for name, value in fpedge.candidates(self.tr, n, d, sorted(self.vs), c.bounds, c.inputs):
                for e in c.trace[at:]:
                    if e.pin is not None and name in e.vs and c.inputs.get(name) != value:
                        e.prefer = [(name, value)]
        return True

    def is_integer(self):
        if self.t[0] == 'g':
            if self.t[2] == 1:
                return True
            if self._edge():
                return self.v.is_integer()
            return _ctx().branch(self.t[1] % self.t[2] == 0, self.v.is_integer(), self.vs)
        return pin(self).is_integer()

    def _fl(self):
        if self.t[0] == 'g':
            n, d = self.t[1], self.t[2]
            if self._edge():
                return math.floor(self.v)
            return SymInt.make(math.floor(self.v), n / d if d != 1 else n, self.vs)
        return math.floor(pin(self))

    def __floor__(self):
        return self._fl()

    def __ceil__(self):
        if self.t[0] == 'g' and self._edge():
            return math.ceil(self.v)
        return -((-self)._fl()) if self.t[0] == 'g' else math.ceil(pin(self))

    def __trunc__(self):
        if self.t[0] == 'g':
            if self.t[2] == 1:
                return SymInt.make(int(self.v), self.t[1], self.vs)
            return self._fl() if self >= 0 else self.__ceil__()
        return int(pin(self))

    def __int__(self):
        return int(pin(self))

    def __round__(self, nd=None):
        if nd is None:
            if self.t[0] == 'g' and not self._edge_half():
                # half to even
                n, d = self.t[1], self.t[2]
                q = (2 * n + d) / (2 * d)
                return SymInt.make(round(self.v), z3.If(z3.And((2 * n + d) % (2 * d) == 0, q % 2 == 1), q - 1, q), self.vs)
            return round(pin(self))
        return round(pin(self), pin(nd))

    def _edge_half(self):
        """The grid value is not exactly a double and lies (almost) half-way between two integers"""
        n, d = self.t[1], self.t[2]
        if d & (d - 1) == 0:
            return False
        m = n / d
        dist = 2 * n - (2 * m + 1) * d
        room = z3.If(n >= 0, n, -n) + d
        near = z3.And(dist * EDGE <= 2 * room, -2 * room <= dist * EDGE, dist != 0)
        k = round(self.v * d)
        gap = 2 * k - (2 * (k // d) + 1) * d
        return _ctx().branch(near, gap != 0 and abs(gap) * EDGE <= 2 * (abs(k) + d), self.vs)

    def as_integer_ratio(self):
        return pin(self).as_integer_ratio()

    def hex(self):
        return pin(self).hex()


def to_float(x):
    if type(x) is SymInt:
        return SymFloat.make(float(x.v), ('g', x.t, 1), x.vs)
    return x


# ---- strings --------------------------------------------------------------------------------------------------------------

class SymChar:
    """One symbolic code point over a finite domain"""
    __slots__ = ('var', 'val')

    def __init__(self, var, val):
        self.var = var
        self.val = val


_pred_cache = {}


def dom_set(dom, key, pred):
    """{cp in dom: pred(chr(cp))}, cached by (key, dom)"""
    k = (key, dom)
    s = _pred_cache.get(k)
    if s is None:
        if len(_pred_cache) > 20000:
            _pred_cache.clear()
        s = _pred_cache[k] = frozenset(cp for cp in dom if pred(chr(cp)))
    return s


def elem_test(e, key, pred):
    """pred(e), forking when needed; key identifies pred"""
    if type(e) is SymChar:
        c = _ctx()
        return c.fd_test(e.var, e.val, dom_set(c.dom[e.var], key, pred))
    return pred(e)


def elem_eq(a, b):
    sa, sb = type(a) is SymChar, type(b) is SymChar
    if not sa and not sb:
        return a == b
    c = _ctx()
    if sa and sb:
        if a.var == b.var:
            return True
        da, db = c.dom[a.var], c.dom[b.var]
        if not (da & db):
            return False
        if len(da) == 1 and len(db) == 1:
            return True
        if len(da) == 1:
            return c.fd_test(b.var, b.val, da)
        if len(db) == 1:
            return c.fd_test(a.var, a.val, db)
        return c.branch(int_var(a.var) == int_var(b.var), a.val == b.val, frozenset((a.var, b.var)))
    if sb:
        a, b = b, a
    return c.fd_test(a.var, a.val, frozenset((ord(b),)))


def elem_lt(a, b):
    sa, sb = type(a) is SymChar, type(b) is SymChar
    if not sa and not sb:
        return a < b
    c = _ctx()
    if sa and sb:
        if a.var == b.var:
            return False
        return c.branch(int_var(a.var) < int_var(b.var), a.val < b.val, frozenset((a.var, b.var)))
    if sa:
        o = ord(b)
        return c.fd_test(a.var, a.val, frozenset(x for x in c.dom[a.var] if x < o))
    o = ord(a)
    return c.fd_test(b.var, b.val, frozenset(x for x in c.dom[b.var] if o < x))


def elem_pin(e):
    if type(e) is SymChar:
        _ctx().pin_fd(e.var, e.val)
        return chr(e.val)
    return e


def elems(s):
    return s.es if type(s) is SymStr else tuple(s)


def _ws(ch):
    return ch.isspace()


class SymStr(str):
    """Symbolic string of concrete length"""

    @staticmethod
    def make(es):
        sym = False
        for e in es:
            if type(e) is SymChar:
                sym = True
                break
        if not sym:
            return ''.join(es)
        p = ''.join(chr(e.val) if type(e) is SymChar else e for e in es)
        s = str.__new__(SymStr, p)
        s.es = es if type(es) is tuple else tuple(es)
        s.p = p
        return s

    # comparisons
    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        a, b = self.es, elems(o)
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if type(x) is not SymChar and type(y) is not SymChar and x != y:
                return False
        for x, y in zip(a, b):
            if not elem_eq(x, y):
                return False
        return True

    def __ne__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return not self.__eq__(o)

    def _lt(self, o, le):
        a, b = elems(self), elems(o)
        for x, y in zip(a, b):
            if not elem_eq(x, y):
                return elem_lt(x, y)
        return len(a) <= len(b) if le else len(a) < len(b)

    def __lt__(self, o):
        return self._lt(o, False) if isinstance(o, str) else NotImplemented

    def __le__(self, o):
        return self._lt(o, True) if isinstance(o, str) else NotImplemented

    def __gt__(self, o):
        return not self._lt(o, True) if isinstance(o, str) else NotImplemented

    def __ge__(self, o):
        return not self._lt(o, False) if isinstance(o, str) else NotImplemented

    def __hash__(self):
        return hash(pin(self))

    def __bool__(self):
        return len(self.es) != 0

    def __len__(self):
        return len(self.es)

    def __iter__(self):
        for e in self.es:
            yield SymStr.make((e,))

    def __getitem__(self, k):
        if isinstance(k, slice):
            k = slice(*(pin(x) for x in (k.start, k.stop, k.step)))
            return SymStr.make(self.es[k])
        return SymStr.make((self.es[pin(k)],))

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SymStr.make(self.es + elems(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SymStr.make(elems(o) + self.es)

    def __mul__(self, n):
        return SymStr.make(self.es * pin(n))

    __rmul__ = __mul__

    def __mod__(self, o):
        return pin(self) % o

    def __rmod__(self, o):
        return o % pin(self)

    def __contains__(self, sub):
        if not isinstance(sub, str):
            raise TypeError
        if type(sub) is SymStr and len(sub.es) == 1 and type(sub.es[0]) is SymChar and not any(type(e) is SymChar for e in self.es):
            return _ctx().fd_test(sub.es[0].var, sub.es[0].val, frozenset(map(ord, self.es)))     # one set test instead of one per character
        return self.find(sub) != -1

    def __repr__(self):
        return repr(pin(self))

    def __str__(self):
        return self

    def __format__(self, spec):
        if spec == '':
            return self.p       # callers that keep the symbolic value go through the f-string hook
        return format(pin(self), spec)

    def __reduce__(self):
        return (str, (pin(self),))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # search
    def _at(self, i, sub):
        es = self.es
        for k, y in enumerate(sub):
            x = es[i + k]
            if type(x) is not SymChar and type(y) is not SymChar and x != y:
                return False
        for k, y in enumerate(sub):
            if not elem_eq(es[i + k], y):
                return False
        return True

    def _bounds(self, start, end):
        return slice(pin(start), pin(end)).indices(len(self.es))[:2]

    def find(self, sub, start=None, end=None):
        if not isinstance(sub, str):
            raise TypeError('must be str')
        raw = 0 if start is None else pin(start)
        a, b = self._bounds(start, end)
        sub = elems(sub)
        if raw > len(self.es):
            return -1
        for i in range(a, b - len(sub) + 1):
            if self._at(i, sub):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        raw = 0 if start is None else pin(start)
        a, b = self._bounds(start, end)
        sub = elems(sub)
        if raw > len(self.es):
            return -1
        for i in range(b - len(sub), a - 1, -1):
            if self._at(i, sub):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r == -1:
            raise ValueError('substring not found')
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r == -1:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        a, b = self._bounds(start, end)
        sub = elems(sub)
        if not sub:
            return b - a + 1
        n = 0
        i = a
        while i <= b - len(sub):
            if self._at(i, sub):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def startswith(self, pre, start=None, end=None):
        if isinstance(pre, tuple):
            return any(self.startswith(x, start, end) for x in pre)
        if not isinstance(pre, str):
            raise TypeError('startswith first arg must be str')
        a, b = self._bounds(start, end)
        if start is not None and pin(start) > len(self.es):
            return False
        pre = elems(pre)
        return b - a >= len(pre) and self._at(a, pre)

    def endswith(self, suf, start=None, end=None):
        if isinstance(suf, tuple):
            return any(self.endswith(x, start, end) for x in suf)
        if not isinstance(suf, str):
            raise TypeError('endswith first arg must be str')
        a, b = self._bounds(start, end)
        suf = elems(suf)
        return b - a >= len(suf) and self._at(b - len(suf), suf)

    def replace(self, old, new, count=-1):
        count = pin(count)
        old_e, new_e = elems(old), elems(new)
        out = []
        n = 0
        es = self.es
        if not old_e:
            for e in es:
                if count < 0 or n < count:
                    out.extend(new_e)
                    n += 1
                out.append(e)
            if count < 0 or n < count:
                out.extend(new_e)
            return SymStr.make(tuple(out))
        i = 0
        while i < len(es):
            if i <= len(es) - len(old_e) and (count < 0 or n < count) and self._at(i, old_e):
                out.extend(new_e)
                i += len(old_e)
                n += 1
            else:
                out.append(es[i])
                i += 1
        return SymStr.make(tuple(out))

    def split(self, sep=None, maxsplit=-1):
        maxsplit = pin(maxsplit)
        es = self.es
        out = []
        if sep is None:
            if maxsplit >= 0:
                return pin(self).split(None, maxsplit)
            cur = []
            for e in es:
                if elem_test(e, 'ws', _ws):
                    if cur:
                        out.append(SymStr.make(tuple(cur)))
                        cur = []
                else:
                    cur.append(e)
            if cur:
                out.append(SymStr.make(tuple(cur)))
            return out
        sub = elems(sep)
        if not sub:
            raise ValueError('empty separator')
        last = i = 0
        while i <= len(es) - len(sub) and (maxsplit < 0 or len(out) < maxsplit):
            if self._at(i, sub):
                out.append(SymStr.make(es[last:i]))
                i += len(sub)
                last = i
            else:
                i += 1
        out.append(SymStr.make(es[last:]))
        return out

    def splitlines(self, keepends=False):
        es = self.es
        out = []
        i = last = 0
        while i < len(es):
            if elem_test(es[i], 'lineb', lambda ch: len(('a' + ch + 'b').splitlines()) == 2):
                j = i + 1
                if j < len(es) and elem_test(es[i], 'cr', lambda ch: ch == '\r') and elem_test(es[j], 'lf', lambda ch: ch == '\n'):
                    j += 1
                out.append(SymStr.make(es[last:j if keepends else i]))
                i = last = j
            else:
                i += 1
        if last < len(es):
            out.append(SymStr.make(es[last:]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, '', '')
        return (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ('', '', self)
        return (self[:i], sep, self[i + len(sep):])

    def _strip(self, chars, left, right):
        es = self.es
        a, b = 0, len(es)
        if chars is None:
            def t(e):
                return elem_test(e, 'ws', _ws)
        else:
            cs = pin(chars)

            def t(e):
                return elem_test(e, ('in', cs), lambda ch: ch in cs)
        if left:
            while a < b and t(es[a]):
                a += 1
        if right:
            while b > a and t(es[b - 1]):
                b -= 1
        return SymStr.make(es[a:b])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def _map(self, key, fn):
        out = []
        for i, e in enumerate(self.es):
            if type(e) is SymChar:
                if elem_test(e, ('fix', key), lambda ch: fn(ch) == ch):
                    out.append(e)
                else:
                    out.extend(fn(elem_pin(e)))
            else:
                out.extend(fn(e))
        return SymStr.make(tuple(out))

    def lower(self):
        if any(elem_test(e, 'Sigma', lambda ch: ch == '\u03a3') for e in self.es):
            return pin(self).lower()
        return self._map('lower', str.lower)

    def upper(self):
        return self._map('upper', str.upper)

    def join(self, it):
        return str_join(self, it)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if p and self.endswith(p) else self

    def ljust(self, n, fill=' '):
        return SymStr.make(self.es + elems(fill) * max(0, pin(n) - len(self.es)))

    def rjust(self, n, fill=' '):
        return SymStr.make(elems(fill) * max(0, pin(n) - len(self.es)) + self.es)


for _n in ('isdigit', 'isspace', 'isalpha', 'isalnum', 'isdecimal', 'isnumeric', 'isprintable', 'isascii'):
    def _mkp(n):
        nat = getattr(str, n)

        def f(self):
            return all(elem_test(e, n, nat) for e in self.es)
        return f
    setattr(SymStr, _n, _mkp(_n))

_done = set(SymStr.__dict__)
for _n in dir(str):
    if _n in _done or _n.startswith('__'):
        continue
    if _n == 'maketrans':
        continue

    def _mkq(n):
        nat = getattr(str, n)

        def f(self, *a, **k):
            return nat(pin(self), *[pin(x) for x in a], **k)
        return f
    setattr(SymStr, _n, _mkq(_n))


def str_join(sep, it):
    items = list(it)
    if type(sep) is not SymStr and not any(type(x) is SymStr for x in items):
        return str.join(sep, items)
    out = []
    sep_e = elems(sep)
    for i, x in enumerate(items):
        if not isinstance(x, str):
            raise TypeError(f'sequence item {i}: expected str instance')
        if i:
            out.extend(sep_e)
        out.extend(elems(x))
    return SymStr.make(tuple(out))


SYM = frozenset((SymInt, SymFloat, SymStr))


__symx__ = True
