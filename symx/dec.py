"""Doubles given by their decimal digits.

A decimal of <= 15 significant digits within the normal range determines a double whose shortest round-trip text is that decimal, and two different such decimals are
different doubles.  So repr, float(text) and equality of these doubles are exact on symbolic digits; every other operation pins the digits."""

from . import core
from . import instr
from .vals import SymStr, SymChar, elem_test, elem_eq, elems, pin

MAXDIG = 15


def _zero(ch):
    return ch == '0'


class DecFloat(float):
    """(-1)^neg * 0.d1d2... * 10^pos in decimal, digits possibly symbolic; no leading and no trailing zero digit"""

    @staticmethod
    def make(neg, digs, exp):
        """digs * 10**exp; strips zeros (forking)"""
        digs = list(digs)
        i = 0
        while i < len(digs) and elem_test(digs[i], 'dzero', _zero):
            i += 1
        digs = digs[i:]
        while digs and elem_test(digs[-1], 'dzero', _zero):
            digs.pop()
            exp += 1
        if not any(type(d) is SymChar for d in digs) or len(digs) > MAXDIG or not -280 < exp < 280:
            return float(('-' if neg else '') + (''.join([d if type(d) is str else pin(SymStr.make((d,))) for d in digs]) or '0') + f'e{exp}')
        text = ('-' if neg else '') + ''.join([chr(d.val) if type(d) is SymChar else d for d in digs]) + f'e{exp}'
        s = float.__new__(DecFloat, text)
        s.neg = neg
        s.digs = tuple(digs)
        s.exp = exp
        return s

    def __sym_pin__(self):
        c = core.CUR
        if c is not None:
            c.stats['pins'] += 1
            for e in self.digs:
                if type(e) is SymChar:
                    c.pin_fd(e.var, e.val)
        return float.__add__(self, 0.0)

    def __sym_str__(self):
        digs, exp = list(self.digs), self.exp
        pos = len(digs) + exp
        sign = ['-'] if self.neg else []
        if -4 < pos <= 16:
            if pos <= 0:
                out = ['0', '.'] + ['0'] * -pos + digs
            elif exp >= 0:
                out = digs + ['0'] * exp + ['.', '0']
            else:
                out = digs[:pos] + ['.'] + digs[pos:]
        else:
            e = pos - 1
            out = digs[:1] + (['.'] + digs[1:] if len(digs) > 1 else []) + list(f'e{"-" if e < 0 else "+"}{abs(e):02d}')
        return SymStr.make(tuple(sign + out))

    def __eq__(self, o):
        if type(o) is DecFloat:
            return self.neg == o.neg and self.exp == o.exp and len(self.digs) == len(o.digs) and all(elem_eq(a, b) for a, b in zip(self.digs, o.digs))
        o = pin(o)
        if not isinstance(o, (int, float)):
            return NotImplemented
        c = self._side(o)
        return c == 0 if c is not None else float.__eq__(self.__sym_pin__(), o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def _side(self, o):
        """-1, 1: certainly below/above the plain number o; None: depends on the digits"""
        if o != o:
            return None
        low, high = 10.0 ** (len(self.digs) + self.exp - 1), 10.0 ** (len(self.digs) + self.exp)
        if self.neg:
            low, high = -high, -low
        # the exact bounds belong to the decimals; widened by far more than the rounding of the powers
        if o < low - abs(low) * 1e-9:
            return 1
        if o > high + abs(high) * 1e-9:
            return -1
        return None

    def _order(self, o, name):
        if type(o) is DecFloat:
            o = o.__sym_pin__()
        o = pin(o)
        if not isinstance(o, (int, float)):
            return NotImplemented
        c = self._side(o)
        if c is None:
            return getattr(float, name)(self.__sym_pin__(), float(o))
        return c < 0 if name in ('__lt__', '__le__') else c > 0

    def __lt__(self, o):
        return self._order(o, '__lt__')

    def __le__(self, o):
        return self._order(o, '__le__')

    def __gt__(self, o):
        return self._order(o, '__gt__')

    def __ge__(self, o):
        return self._order(o, '__ge__')

    def __bool__(self):
        return True

    def __neg__(self):
        return DecFloat.make(not self.neg, self.digs, self.exp)

    def __pos__(self):
        return self

    def __abs__(self):
        return DecFloat.make(False, self.digs, self.exp)

    def is_integer(self):
        return self.exp >= 0

    def __trunc__(self):
        if self.exp >= 0:
            n = instr.int_of_str(SymStr.make(self.digs + ('0',) * self.exp)) if self.exp + len(self.digs) <= 18 else None
            if n is not None:
                return -n if self.neg else n
        return int(self.__sym_pin__())

    __int__ = __trunc__

    def __hash__(self):
        return hash(self.__sym_pin__())

    def __repr__(self):
        return repr(self.__sym_pin__())

    def __str__(self):
        return repr(self.__sym_pin__())

    def __format__(self, spec):
        return format(self.__sym_pin__(), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (float, (self.__sym_pin__(),))


def _pinned(name):
    f = getattr(float, name)

    def op(self, *a):
        return f(self.__sym_pin__(), *[pin(x) for x in a])
    return op


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv', 'floordiv', 'rfloordiv', 'mod', 'rmod', 'divmod', 'rdivmod', 'pow', 'rpow', 'round', 'floor', 'ceil'):
    setattr(DecFloat, f'__{_n}__', _pinned(f'__{_n}__'))
for _n in ('as_integer_ratio', 'hex', 'conjugate'):
    setattr(DecFloat, _n, _pinned(_n))
DecFloat.__float__ = lambda self: self


def never_number(es, is_):
    """Has a character that no number text has, or a sign after a digit"""
    digit = False
    for e in es:
        if elem_test(e, 'notnum', lambda ch: '!' <= ch <= '~' and ch not in '0123456789+-._eEinfatyINFATY'):
            return True
        if digit and is_(e, 'sign', '+-'):
            return True
        digit = is_(e, 'd', '0123456789')
    return False


def float_of_str(s):
    """float(text): plain decimals stay symbolic, anything else is pinned"""
    es = elems(s)
    i = 0
    neg = False

    def is_(e, key, chars):
        return elem_test(e, ('in', chars), lambda ch: ch in chars)
    n = len(es)
    if i < n and is_(es[i], 'sign', '+-'):
        neg = is_(es[i], 'neg', '-')
        i += 1
    digs = []
    exp = 0
    any_ = False
    while i < n and is_(es[i], 'd', '0123456789'):
        digs.append(es[i])
        any_ = True
        i += 1
    if i < n and is_(es[i], 'dot', '.'):
        i += 1
        while i < n and is_(es[i], 'd', '0123456789'):
            digs.append(es[i])
            exp -= 1
            any_ = True
            i += 1
    if any_ and i < n and is_(es[i], 'e', 'eE'):
        rest = pin(SymStr.make(es[i + 1:])) if any(type(e) is SymChar for e in es[i + 1:]) else ''.join(es[i + 1:])
        body = rest[1:] if rest[:1] in ('+', '-') else rest
        if body.isascii() and body.isdigit():
            exp += int(rest)
            i = n
    if not any_ or i < n or len(digs) > 60:
        if never_number(es, is_):
            raise ValueError('could not convert string to float')
        return float(pin(s))
    if not any(type(d) is SymChar for d in digs):
        return float(('-' if neg else '') + ''.join(digs) + f'e{exp}')
    return DecFloat.make(neg, digs, exp)


def install():
    instr.FLOAT_OF_STR[0] = float_of_str
    instr.CMODELS[float.__repr__] = lambda x: instr.CMODELS[str](x) if hasattr(type(x), '__sym_str__') else float.__repr__(pin(x))


def decimal(ctx, name, neg, nd, exp):
    """A double of nd symbolic significant digits times 10**exp"""
    parts = [ctx.str(name + '.a', 1, '123456789')]
    if nd > 2:
        parts.append(ctx.str(name + '.m', nd - 2, '0123456789'))
    if nd > 1:
        parts.append(ctx.str(name + '.z', 1, '123456789'))
    if ctx.symbolic:
        es = ()
        for p in parts:
            es += elems(p)
        return DecFloat.make(neg, es, exp)
    return float(('-' if neg else '') + ''.join(parts) + f'e{exp}')
