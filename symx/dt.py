"""Symbolic datetimes and time deltas (naive, proleptic Gregorian; exact microsecond integers)."""

import calendar
import datetime

import z3

from . import core
from .vals import SymInt, SymFloat, pin, is_symnum, plain, grid
from .instr import model, _csym, CMODELS, TRANSPARENT

EPOCH = datetime.datetime(1970, 1, 1)
_REAL_DT = datetime.datetime
_REAL_DATE = datetime.date
_REAL_TD = datetime.timedelta


def _term(x):
    return x.t if type(x) is SymInt else x


def _vs(*xs):
    out = frozenset()
    for x in xs:
        if type(x) is SymInt:
            out |= x.vs
    return out


def is_leap(y):
    """Forking leap year test"""
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def days_in_month(y, m):
    """Forking (month is pinned)"""
    m = pin(m)
    if m == 2:
        return 29 if is_leap(y) else 28
    return 30 if m in (4, 6, 9, 11) else 31


def days_from_civil(y, m, d):
    """Days since 1970-01-01 as a SymInt or int (month must be concrete or it is pinned)"""
    m = pin(m)
    if not (type(y) is SymInt or type(d) is SymInt):
        return _REAL_DATE(y, m, d).toordinal() - 719163
    n = CUM[m - 1] + d
    if m > 2 and is_leap(y):
        n = n + 1
    p = y - 1
    return p * 365 + p // 4 - p // 100 + p // 400 + n - 719163


CUM = (0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)
LEN = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def fresh(name, value):
    """An auxiliary integer, defined by the equations that are added with it"""
    ctx = core.CUR
    name = ctx._name('aux.' + name)
    ctx.inputs[name] = value
    return SymInt.make(value, core.int_var(name), frozenset((name,)))


def memo():
    """The auxiliary integers of this path, by the term they were made for (which is kept alive with them)"""
    return core.CUR.__dict__.setdefault('_aux', {})


def define(vs, *terms):
    core.CUR.trace.append(core.Entry('a', z3.And(*terms), True, vs))


def month_term(m, table):
    t = z3.IntVal(table[11])
    for k in range(10, -1, -1):
        t = z3.If(m == k + 1, z3.IntVal(table[k]), t)
    return t


def leap_term(y):
    return z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))


def civil_from_days(z):
    """(y, m, d) of days since 1970-01-01: for a symbolic count three auxiliary integers with the calendar equation"""
    if type(z) is not SymInt:
        x = _REAL_DATE.fromordinal(z + 719163)
        return x.year, x.month, x.day
    key = z3.simplify(z.t)
    known = memo().get((key.get_id(), 'civil'))
    if known is not None:
        return known[1]
    x = _REAL_DATE.fromordinal(z.v + 719163)
    y, m, d = fresh('y', x.year), fresh('m', x.month), fresh('d', x.day)
    leap = leap_term(y.t)
    p = y.t - 1
    define(z.vs | y.vs | m.vs | d.vs, y.t >= 1, y.t <= 9999, m.t >= 1, m.t <= 12, d.t >= 1,
           d.t <= month_term(m.t, LEN) + z3.If(z3.And(m.t == 2, leap), 1, 0),
           z.t + 719163 == p * 365 + p / 4 - p / 100 + p / 400 + month_term(m.t, CUM) + z3.If(z3.And(m.t > 2, leap), 1, 0) + d.t)
    memo()[key.get_id(), 'civil'] = key, (y, m, d)
    return y, m, d


def clock_from_us(us):
    """(days, h, mi, s, us) of a microsecond count"""
    if type(us) is not SymInt:
        return us // 86400000000, us // 3600000000 % 24, us // 60000000 % 60, us // 1000000 % 60, us % 1000000
    key = z3.simplify(us.t)
    known = memo().get((key.get_id(), 'clock'))
    if known is not None:
        return known[1]
    v = us.v
    days, h, mi, s, u = (fresh(n, x) for n, x in (('days', v // 86400000000), ('h', v // 3600000000 % 24), ('mi', v // 60000000 % 60), ('s', v // 1000000 % 60), ('us', v % 1000000)))
    define(us.vs | days.vs | h.vs | mi.vs | s.vs | u.vs, h.t >= 0, h.t < 24, mi.t >= 0, mi.t < 60, s.t >= 0, s.t < 60, u.t >= 0, u.t < 1000000,
           us.t == (((days.t * 24 + h.t) * 60 + mi.t) * 60 + s.t) * 1000000 + u.t)
    memo()[key.get_id(), 'clock'] = key, (days, h, mi, s, u)
    return days, h, mi, s, u


class SymTD(datetime.timedelta):
    """timedelta with a symbolic microsecond count"""
    @staticmethod
    def make(us):
        if type(us) is not SymInt:
            return _REAL_TD(microseconds=us)
        s = _REAL_TD.__new__(SymTD, microseconds=us.v)
        s.us = us
        return s

    def __sym_pin__(self):
        return _REAL_TD(microseconds=pin(self.us))
    __sym_type__ = datetime.timedelta

    def total_seconds(self):
        return self.us / 10 ** 6

    @property
    def days(self):
        return self.us // 86400000000

    @property
    def seconds(self):
        return (self.us % 86400000000) // 1000000

    @property
    def microseconds(self):
        return self.us % 1000000

    def __neg__(self):
        return SymTD.make(-self.us)

    def __add__(self, o):
        return SymTD.make(self.us + td_us(o)) if isinstance(o, _REAL_TD) else NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        return SymTD.make(self.us - td_us(o)) if isinstance(o, _REAL_TD) else NotImplemented

    def __rsub__(self, o):
        return SymTD.make(td_us(o) - self.us) if isinstance(o, _REAL_TD) else NotImplemented

    def __mul__(self, o):
        if type(o) is SymInt or isinstance(o, int):
            return SymTD.make(self.us * o)
        return self.__sym_pin__() * pin(o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, _REAL_TD):
            return self.us / td_us(o)
        return self.__sym_pin__() / pin(o)

    def __floordiv__(self, o):
        if isinstance(o, _REAL_TD):
            return self.us // td_us(o)
        return SymTD.make(self.us // o)

    def __mod__(self, o):
        return SymTD.make(self.us % td_us(o))

    def __eq__(self, o):
        return self.us == td_us(o) if isinstance(o, _REAL_TD) else NotImplemented

    def __ne__(self, o):
        return self.us != td_us(o) if isinstance(o, _REAL_TD) else NotImplemented

    def __lt__(self, o):
        return self.us < td_us(o) if isinstance(o, _REAL_TD) else NotImplemented

    def __le__(self, o):
        return self.us <= td_us(o) if isinstance(o, _REAL_TD) else NotImplemented

    def __gt__(self, o):
        return self.us > td_us(o) if isinstance(o, _REAL_TD) else NotImplemented

    def __ge__(self, o):
        return self.us >= td_us(o) if isinstance(o, _REAL_TD) else NotImplemented

    def __bool__(self):
        return self.us != 0

    def __hash__(self):
        return hash(self.__sym_pin__())


def td_us(td):
    if type(td) is SymTD:
        return td.us
    return (td.days * 86400 + td.seconds) * 1000000 + td.microseconds


@model(datetime.timedelta)
def _m_td(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
    total = 0
    for v, us in ((days, 86400000000), (seconds, 1000000), (microseconds, 1), (milliseconds, 1000), (minutes, 60000000),
                  (hours, 3600000000), (weeks, 604800000000)):
        if is_symnum(v):
            p = v * us
            if type(p) is SymFloat:
                g = grid(p)
                if not isinstance(g[0], str) and g[1] != 1:
                    if p.is_integer():
                        p = SymInt.make(int(p.v), g[0] / g[1], p.vs)
                    else:
                        p = td_us(_REAL_TD(microseconds=pin(p)))
                elif not isinstance(g[0], str):
                    p = SymInt.make(int(p.v), g[0], p.vs)
                else:
                    p = td_us(_REAL_TD(microseconds=pin(p)))
            total = total + p
        elif v != 0:
            total = total + td_us(_REAL_TD(microseconds=v * us) if isinstance(v, int) else _REAL_TD(**{_names[us]: v}))
    limit = 999999999 * 86400000000
    if not (-limit <= total < limit + 86400000000):
        raise OverflowError('days out of range')
    return SymTD.make(total)


_names = {86400000000: 'days', 1000000: 'seconds', 1: 'microseconds', 1000: 'milliseconds', 60000000: 'minutes',
          3600000000: 'hours', 604800000000: 'weeks'}


class SymDate(datetime.date):
    """date with symbolic components"""
    @staticmethod
    def make(y, m, d):
        if not any(type(x) is SymInt for x in (y, m, d)):
            return _REAL_DATE(y, m, d)
        s = _REAL_DATE.__new__(SymDate, plain(y), plain(m), plain(d))
        s.c = (y, m, d)
        return s

    def __sym_pin__(self):
        return _REAL_DATE(*[pin(x) for x in self.c])
    __sym_type__ = datetime.date

    year = property(lambda self: self.c[0])
    month = property(lambda self: self.c[1])
    day = property(lambda self: self.c[2])

    def __hash__(self):
        return hash(self.__sym_pin__())

    def isoformat(self):
        return self.__sym_pin__().isoformat()

    def _key(self, o):
        if not isinstance(o, _REAL_DATE) or isinstance(o, _REAL_DT):
            return None
        return self.c, (o.c if type(o) is SymDate else (o.year, o.month, o.day))

    def __eq__(self, o):
        k = self._key(o)
        return NotImplemented if k is None else lex_cmp(*k) == 0

    def __ne__(self, o):
        k = self._key(o)
        return NotImplemented if k is None else lex_cmp(*k) != 0

    def __lt__(self, o):
        k = self._key(o)
        return NotImplemented if k is None else lex_cmp(*k) < 0

    def __le__(self, o):
        k = self._key(o)
        return NotImplemented if k is None else lex_cmp(*k) <= 0

    def __gt__(self, o):
        k = self._key(o)
        return NotImplemented if k is None else lex_cmp(*k) > 0

    def __ge__(self, o):
        k = self._key(o)
        return NotImplemented if k is None else lex_cmp(*k) >= 0


def lex_cmp(a, b):
    for x, y in zip(a, b):
        if x == y:
            continue
        return -1 if x < y else 1
    return 0


def comps(dt):
    if type(dt) is SymDT:
        return dt.c
    return (dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second, dt.microsecond)


def dt_us(dt):
    """Microseconds since 1970-01-01 (naive)"""
    if type(dt) is SymDT and dt._us is not None:
        return dt._us
    y, mo, d, h, mi, s, us = comps(dt)
    r = ((days_from_civil(y, mo, d) * 24 + h) * 60 + mi) * 60 + s
    r = r * 1000000 + us
    if type(dt) is SymDT:
        dt._us = r
    return r


US_MIN = -62135596800000000
US_MAX = 253402300800000000


class SymDT(datetime.datetime):
    """Naive (or fixed-zone) datetime with symbolic components and/or microsecond count"""
    @staticmethod
    def make(c, us=None, tz=None):
        zoned = getattr(core.CUR, 'zone', None) is not None
        if us is None and not zoned and not any(type(x) is SymInt for x in c):
            return _REAL_DT(*c, tzinfo=tz)
        if c is None:
            if type(us) is not SymInt and not zoned:
                return (EPOCH + _REAL_TD(microseconds=us)).replace(tzinfo=tz)
            p = EPOCH + _REAL_TD(microseconds=plain(us))
            s = _REAL_DT.__new__(SymDT, p.year, p.month, p.day, p.hour, p.minute, p.second, p.microsecond)
        else:
            s = _REAL_DT.__new__(SymDT, *[plain(x) for x in c])
        s._c = c
        s._us = us
        s._tz = tz
        return s

    def __sym_pin__(self):
        tz = self._tz.__sym_pin__() if hasattr(type(self._tz), '__sym_pin__') else self._tz
        if self._c is not None:
            return _REAL_DT(*[pin(x) for x in self._c], tzinfo=tz)
        return (EPOCH + _REAL_TD(microseconds=pin(self._us))).replace(tzinfo=tz)
    __sym_type__ = datetime.datetime

    @property
    def c(self):
        if self._c is None:
            days, h, mi, sec, us = self.clock()
            self._c = civil_from_days(days) + (h, mi, sec, us)
        return self._c

    def _time(self, i):
        if self._c is not None:
            return self._c[i]
        return self.clock()[i - 2]

    def clock(self):
        k = getattr(self, '_k', None)
        if k is None:
            k = self._k = clock_from_us(self._us)
        return k

    year = property(lambda self: self.c[0])
    month = property(lambda self: self.c[1])
    day = property(lambda self: self.c[2])
    hour = property(lambda self: self._time(3))
    minute = property(lambda self: self._time(4))
    second = property(lambda self: self._time(5))
    microsecond = property(lambda self: self._time(6))
    tzinfo = property(lambda self: self._tz)
    fold = property(lambda self: 0)

    def __hash__(self):
        return hash(self.__sym_pin__())

    def __repr__(self):
        return repr(self.__sym_pin__())

    def __str__(self):
        return str(self.__sym_pin__())

    def __format__(self, spec):
        return format(self.__sym_pin__(), spec)

    def __reduce__(self):
        return self.__sym_pin__().__reduce__()

    def __reduce_ex__(self, proto):
        return self.__sym_pin__().__reduce_ex__(proto)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def date(self):
        return SymDate.make(*self.c[:3])

    def replace(self, year=None, month=None, day=None, hour=None, minute=None, second=None, microsecond=None, tzinfo=True, *, fold=None):
        new = (year, month, day, hour, minute, second, microsecond)
        if all(x is None for x in new):
            return SymDT.make(self._c, self._us, self._tz if tzinfo is True else tzinfo)
        if new[:6] == (None,) * 6 and self._us is not None and self._c is None:
            if not 0 <= microsecond <= 999999:
                raise ValueError('microsecond must be in 0..999999')
            us = self._us - self._us % 1000000 + microsecond
            return SymDT.make(None, us, self._tz if tzinfo is True else tzinfo)
        c = [o if n is None else n for n, o in zip(new, self.c)]
        return _m_dt(*c, tzinfo=self._tz if tzinfo is True else tzinfo)

    def astimezone(self, tz=None):
        h = ASTIMEZONE[0]
        if h is not None:
            return h(self, tz)
        return self.__sym_pin__().astimezone(tz)

    def _cmpk(self, o, op):
        if not isinstance(o, _REAL_DT):
            return NotImplemented
        if (self._tz is None) != (o.tzinfo is None) or self._tz is not None:
            return getattr(self.__sym_pin__(), op)(o.__sym_pin__() if type(o) is SymDT else o)
        if self._c is not None and (type(o) is not SymDT or o._c is not None):
            r = lex_cmp(self._c, comps(o))
        else:
            a, b = dt_us(self), dt_us(o)
            r = 0 if a == b else (-1 if a < b else 1)
        return {'__eq__': r == 0, '__ne__': r != 0, '__lt__': r < 0, '__le__': r <= 0, '__gt__': r > 0, '__ge__': r >= 0}[op]

    def __eq__(self, o):
        return self._cmpk(o, '__eq__')

    def __ne__(self, o):
        return self._cmpk(o, '__ne__')

    def __lt__(self, o):
        return self._cmpk(o, '__lt__')

    def __le__(self, o):
        return self._cmpk(o, '__le__')

    def __gt__(self, o):
        return self._cmpk(o, '__gt__')

    def __ge__(self, o):
        return self._cmpk(o, '__ge__')

    def __add__(self, o):
        if not isinstance(o, _REAL_TD):
            return NotImplemented
        return dt_add(self, td_us(o), self._tz)
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, _REAL_TD):
            return dt_add(self, -td_us(o), self._tz)
        if isinstance(o, _REAL_DT):
            return SymTD.make(dt_us(self) - dt_us(o))
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, _REAL_DT):
            return SymTD.make(dt_us(o) - dt_us(self))
        return NotImplemented

    def utcoffset(self):
        return self._tz.utcoffset(self) if self._tz is not None else None


for _n in ('timestamp', 'weekday', 'isoweekday', 'timetuple', 'utctimetuple', 'strftime', 'ctime', 'isoformat', 'isocalendar', 'toordinal',
           'time', 'timetz', 'tzname', 'dst'):
    def _mk(n):
        def f(self, *a, **k):
            h = DT_HOOKS.get(n)
            if h is not None:
                return h(self, *a, **k)
            return getattr(self.__sym_pin__(), n)(*a, **k)
        return f
    setattr(SymDT, _n, _mk(_n))
DT_HOOKS = {}
ASTIMEZONE = [None]


def dt_add(dt, us, tz=None):
    total = dt_us(dt) + us
    if not US_MIN <= total < US_MAX:
        raise OverflowError('date value out of range')
    return SymDT.make(None, total, tz) if type(total) is SymInt else (EPOCH + _REAL_TD(microseconds=total)).replace(tzinfo=tz)


# real datetime + SymTD: datetime.__add__ (C) would use the payload only; SymTD.__radd__ comes first because of the order below
def _radd(self, o):
    if isinstance(o, _REAL_DT):
        return dt_add(o, self.us, o.tzinfo)
    return SymTD.make(self.us + td_us(o)) if isinstance(o, _REAL_TD) else NotImplemented


SymTD.__radd__ = _radd
_old_add = SymTD.__add__
SymTD.__add__ = lambda self, o: _radd(self, o)


@model(datetime.datetime)
def _m_dt(year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
    c = (year, month, day, hour, minute, second, microsecond)
    if any(isinstance(x, float) for x in c):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if not 1 <= year <= 9999:
        raise ValueError('year is out of range')
    if not 1 <= month <= 12:
        raise ValueError('month must be in 1..12')
    if not 1 <= day <= 28:
        if not 1 <= day <= days_in_month(year, month):
            raise ValueError('day is out of range for month')
    if not 0 <= hour <= 23:
        raise ValueError('hour must be in 0..23')
    if not 0 <= minute <= 59:
        raise ValueError('minute must be in 0..59')
    if not 0 <= second <= 59:
        raise ValueError('second must be in 0..59')
    if not 0 <= microsecond <= 999999:
        raise ValueError('microsecond must be in 0..999999')
    return SymDT.make(c, None, tzinfo)


@model(datetime.date)
def _m_date(year, month, day):
    if any(isinstance(x, float) for x in (year, month, day)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if not 1 <= year <= 9999:
        raise ValueError('year is out of range')
    if not 1 <= month <= 12:
        raise ValueError('month must be in 1..12')
    if not 1 <= day <= 28:
        if not 1 <= day <= days_in_month(year, month):
            raise ValueError('day is out of range for month')
    return SymDate.make(year, month, day)


@model(calendar.monthrange)
def _m_monthrange(year, month):
    if not 1 <= month <= 12:
        raise calendar.IllegalMonthError(pin(month))
    d = days_in_month(year, month)
    y = pin(month)
    # weekday as a term
    days = days_from_civil(year, y, 1)
    return ((days + 3) % 7, d)


for _cls in (SymDT, SymDate, SymTD):
    pass


__symx__ = True
