"""Local time zone of a path, symbolic digits of integers, ISO text of symbolic datetimes.

The zone is a stub for the operating system's rules: offset `before` (minutes) until the instant `at` (microseconds since 1970 UTC), `after` from then on.
On replay the same zone is given to the C library as a POSIX TZ rule, valid around the transition."""

import os
import time
import datetime

from . import core

DAY = 86400000000
MINUTE = 60000000


# ---- digits -----------------------------------------------------------------------------------------------------------

def digits(n, width=0):
    """Decimal text of a SymInt: the digits are fresh symbolic characters tied to it by a linear equation"""
    from .vals import SymStr, SymChar, SymInt
    ctx = core.CUR
    neg = n < 0
    if neg:
        n = -n
        width = max(width - 1, 0)
    k = max(width, 1)
    while n >= 10 ** k:
        k += 1
    if not width:
        pass
    value = n.v
    text = str(value).rjust(k, '0')
    term = None
    es = []
    vs = set(n.vs)
    names = []
    for i, c in enumerate(text):
        name = ctx._name('dig')
        names.append(name)
        d = DIGITS
        ctx.dom[name] = d
        ctx.dom0[name] = d
        ctx.inputs[name] = ord(c)
        es.append(SymChar(name, ord(c)))
        v = core.int_var(name) - 48
        term = v if term is None else term * 10 + v
        vs.add(name)
    ctx.trace.append(core.Entry('a', n.t == term, True, frozenset(vs)))
    if not names:
        return SymStr.make(tuple(text))
    s = SymStr.make(tuple(es))
    return SymStr.make(('-',) + s.es) if neg else s


DIGITS = frozenset(range(48, 58))


def enabled():
    return core.CUR is not None and getattr(core.CUR, 'symdigits', False)


def str_of(x):
    """str(SymInt)"""
    from .vals import SymInt, pin
    if type(x) is SymInt and enabled():
        return digits(x)
    return str(pin(x))


def format_of(x, spec):
    """format(SymInt, '03d') as symbolic text; None when not handled"""
    from .vals import SymInt
    if type(x) is SymInt and enabled() and isinstance(spec, str):
        s = spec[:-1] if spec[-1:] == 'd' else spec
        if s == '':
            return digits(x)
        if s[0] == '0' and s.isdigit() and len(s) > 1:
            return digits(x, int(s))
    return None


# ---- zone -------------------------------------------------------------------------------------------------------------

class Zone:
    def __init__(self, before, after=None, at=0):
        self.before = before
        self.after = before if after is None else after
        self.at = at

    def at_utc(self, us):
        if self.before is self.after:
            return self.before
        return self.before if us < self.at else self.after

    def utc_candidates(self, us):
        """Instants (us) a local time stands for: 0 (gap), 1 or 2 (overlap, the earlier first)"""
        if self.before is self.after:
            return [us - self.before * MINUTE]
        out = []
        u = us - self.before * MINUTE
        if u < self.at:
            out.append(u)
        u = us - self.after * MINUTE
        if u >= self.at:
            out.append(u)
        return out


def posix(off):
    """POSIX text of an offset in minutes east"""
    s = '-' if off > 0 else '+'
    off = abs(off)
    return f'{s}{off // 60}:{off % 60:02d}'


def use_zone(ctx, before, after=None, at=None):
    """Make the process run in the zone; offsets in minutes east, at = transition as a UTC datetime"""
    if at is not None:
        us = (at - datetime.datetime(1970, 1, 1)) // datetime.timedelta(microseconds=1)
    if ctx.symbolic:
        ctx.zone = Zone(before, after, us if at is not None else 0)
        return ctx.zone
    tz = f'<AAA>{posix(before)}'
    if at is not None:
        local = at + datetime.timedelta(minutes=before)
        start = local.timetuple().tm_yday
        end = (local + datetime.timedelta(days=100)).timetuple().tm_yday
        if local.year % 4 == 0 and (local.year % 100 != 0 or local.year % 400 == 0) and start > 59:
            start -= 1
        secs = f'{local.hour}:{local.minute:02d}:{local.second:02d}'
        tz += f'<BBB>{posix(after)},J{start}/{secs},J{end if end <= 365 else 365}/0'
    os.environ['TZ'] = tz
    time.tzset()
    return Zone(before, after, us if at is not None else 0)


def install():
    """Models (instrumented runs only)"""
    from . import dt, instr
    from .vals import SymInt, SymStr, pin, elems
    instr.STR_OF_NUM[0] = str_of
    instr.FORMAT_OF_NUM[0] = format_of

    class SymTZ(datetime.tzinfo):
        """Fixed offset of symbolic minutes"""
        def __init__(self, minutes):
            self.minutes = minutes

        def __sym_pin__(self):
            return datetime.timezone(datetime.timedelta(minutes=pin(self.minutes)))

        def utcoffset(self, d):
            return datetime.timedelta(minutes=pin(self.minutes)) if type(self.minutes) is not SymInt else dt.SymTD.make(self.minutes * MINUTE)

        def dst(self, d):
            return None

        def tzname(self, d):
            return 'Z'

    def offset_us(tz, d):
        if type(tz) is SymTZ:
            return tz.minutes * MINUTE
        return dt.td_us(tz.utcoffset(d))

    def astimezone(d, tz=None):
        zone = getattr(core.CUR, 'zone', None)
        if zone is None:
            p = d.__sym_pin__() if type(d) is dt.SymDT else d
            return p.astimezone(tz.__sym_pin__() if type(tz) is SymTZ else tz)
        if d.tzinfo is None:
            us = dt.dt_us(d)
            c = zone.utc_candidates(us)
            if not c:
                # a local time that does not exist: C library rules, not modelled
                raise core.Abandon()
            u = c[0]
        else:
            u = dt.dt_us(d) - offset_us(d.tzinfo, d)
        if tz is not None:
            return dt.SymDT.make(None, u + offset_us(tz, d), tz)
        off = zone.at_utc(u)
        local = u + off * MINUTE
        if not dt.US_MIN <= local < dt.US_MAX:
            raise OverflowError('date value out of range')
        if d.tzinfo is None:
            return dt.SymDT.make(dt.comps(d), dt.dt_us(d), SymTZ(off))
        return dt.SymDT.make(None, local, SymTZ(off))
    dt.ASTIMEZONE[0] = astimezone

    def num(x, width):
        if type(x) is SymInt:
            return digits(x, width)
        return str(x).rjust(width, '0')

    def isoformat(d, sep='T', timespec='auto'):
        if not enabled() or sep != 'T' or timespec not in ('auto', 'milliseconds', 'microseconds', 'seconds'):
            return dt_pin(d).isoformat(sep, timespec)
        y, mo, da, h, mi, s, us = dt.comps(d)
        out = num(y, 4) + '-' + num(mo, 2) + '-' + num(da, 2) + 'T' + num(h, 2) + ':' + num(mi, 2) + ':' + num(s, 2)
        if timespec == 'milliseconds':
            out = out + '.' + num(us // 1000, 3)
        elif timespec == 'microseconds' or (timespec == 'auto' and us != 0):
            out = out + '.' + num(us, 6)
        if d.tzinfo is not None:
            off = offset_us(d.tzinfo, d)
            sign = '+'
            if off < 0:
                sign = '-'
                off = -off
            off = off // MINUTE
            out = out + sign + num(off // 60, 2) + ':' + num(off % 60, 2)
        return out
    dt.DT_HOOKS['isoformat'] = isoformat

    def dt_pin(d):
        return d.__sym_pin__() if hasattr(type(d), '__sym_pin__') else d

    def date_isoformat(d):
        if not enabled():
            return dt_pin(d).isoformat()
        y, mo, da = d.c
        return num(y, 4) + '-' + num(mo, 2) + '-' + num(da, 2)
    dt.SymDate.isoformat = date_isoformat

    def dig(s):
        for e in elems(s):
            if not instr.elem_test(e, 'adigit', lambda ch: ch in '0123456789'):
                return None
        return instr.int_of_str(SymStr.make(elems(s))) if type(s) is SymStr else int(s)

    def wrap(d):
        if getattr(core.CUR, 'zone', None) is None:
            return d
        return dt.SymDT.make((d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond), None, d.tzinfo)

    def fromisoformat(s):
        """YYYY-MM-DDTHH:MM:SS[.f+][Z|+-HH:MM] of Python 3.12"""
        if not enabled() or type(s) is not SymStr:
            return wrap(datetime.datetime.fromisoformat(pin(s)))
        n = len(s)
        es = s.es

        def other():
            return wrap(datetime.datetime.fromisoformat(pin(s)))
        if n < 19 or not (s[4] == '-' and s[7] == '-' and s[10] == 'T' and s[13] == ':' and s[16] == ':'):
            return other()
        parts = [s[0:4], s[5:7], s[8:10], s[11:13], s[14:16], s[17:19]]
        c = [dig(p) for p in parts]
        if any(x is None for x in c):
            return other()
        i = 19
        us = 0
        if i < n and s[i] == '.':
            i += 1
            frac = ''
            while i < n and instr.elem_test(es[i], 'adigit', lambda ch: ch in '0123456789'):
                frac = frac + s[i]
                i += 1
            if not 0 < len(frac) <= 6:
                return other()
            frac = frac + '000000'[len(frac):]
            us = dig(frac)
        tz = None
        if i < n:
            if s[i] == 'Z' and i + 1 == n:
                tz = datetime.timezone.utc
            elif i + 6 == n and (s[i] == '+' or s[i] == '-') and s[i + 3] == ':':
                neg = s[i] == '-'
                hp, mp = s[i + 1:i + 3], s[i + 4:i + 6]
                hh, mm = dig(hp), dig(mp)
                if hh is None or mm is None:
                    return other()
                off = hh * 60 + mm
                if off >= 1440:
                    raise ValueError('offset must be a timedelta strictly between -24 and 24 hours')
                off = -off if neg else off
                tz = SymTZ(off) if type(off) is SymInt else datetime.timezone(datetime.timedelta(minutes=off))
            else:
                return other()
        return dt._m_dt(*c, us, tzinfo=tz)
    instr.CMODELS[datetime.datetime.fromisoformat] = fromisoformat
    return SymTZ


__symx__ = True
