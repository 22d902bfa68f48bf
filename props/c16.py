"""C16: datetime construction, arithmetic and ISO text"""

import datetime

from symx.harness import Harness
from symx.zone import use_zone
from props.common import show, call, binop, ref_type, same, make_dt, make_date, is_num

BOUNDS = ('years 100..9000, months -30..40, days -10000..10000, time components -5000..5000, millisecond offsets to +-10^12, all symbolic integers (as int or float); '
          'UTC offset any whole minute -12:00..+14:00 (symbolic), and six kinds of transition with a symbolic local time around them; ISO texts with symbolic digits and <= 2 arbitrary characters')
ASSUMPTIONS = ['datetime, timedelta and calendar.monthrange follow the proleptic Gregorian calendar (modelled by exact integers)',
               'the process time zone is a stub: one offset, or two around one transition; replay sets the same zone as a POSIX TZ rule', 'local times in a gap do not exist; a repeated local time stands for its first occurrence',
               'total_seconds()*1000 and the like are exact (true for the millisecond counts within the bounds)', 'ISO texts of other shapes (week dates, basic format, no offset, :60, 24:00) are left open']

CUM = (0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)
LEN = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)
PARTS = ('Year', 'Month', 'Day', 'Hour', 'Minute', 'Second', 'Millisecond')


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def month_index(m):
    """0..11 of a month number in 1..12 (forks)"""
    for k in range(12):
        if m == k + 1:
            return k
    return None


def day_number(y, m, d):
    """Days since 0000-12-31 of any year, month and day numbers"""
    y = y + (m - 1) // 12
    k = month_index((m - 1) % 12 + 1)
    n = CUM[k] + d
    if k >= 2 and leap(y):
        n = n + 1
    y = y - 1
    return y * 365 + y // 4 - y // 100 + y // 400 + n


def instant(y, m, d, h=0, mi=0, s=0, ms=0):
    """Milliseconds"""
    return (((day_number(y, m, d) * 24 + h) * 60 + mi) * 60 + s) * 1000 + ms


def parts_of(bs, d):
    return [call(bs, 'datetime' + p, [d]) for p in PARTS]


def in_range(p):
    y, m, d, h, mi, s, ms = p
    if not all(is_num(x) for x in p):
        return False
    k = month_index(m)
    if k is None:
        return False
    return 1 <= d and d <= LEN[k] + (1 if k == 1 and d == 29 and leap(y) else 0) and 0 <= h < 24 and 0 <= mi < 60 and 0 <= s < 60 and 0 <= ms < 1000


def number(ctx, name, lo, hi, default=None):
    v = ctx.int(name, lo, hi, default)
    return v


def check_new(ctx, bs, args):
    """datetimeNew(args) is the instant the calendar gives"""
    call_args = [float(a) for a in args] if ctx.flag('float') else list(args)
    r = call(bs, 'datetimeNew', call_args)
    ctx.check(ref_type(r) == 'datetime', lambda: f'datetimeNew({show(args)}) = {show(r)}')
    p = parts_of(bs, r)
    ctx.reach('made')
    ctx.check(in_range(p), lambda: f'datetimeNew({show(args)}) has the parts {show(p)}')
    want = instant(*args)
    got = instant(*p)
    ctx.check(got == want, lambda: f'datetimeNew({show(args)}) is {show(p)}, off by {show(got - want)} ms')
    return r


def new_time(ctx, bs):
    """Time components out of range, any year"""
    y = ctx.int('y', 100, 9000, 2024)
    mo = ctx.int('mo', 1, 12)
    d = ctx.int('d', 1, 28)
    args = [y, mo, d]
    n = ctx.choice('n', 5)
    big = ctx.params['big']
    for k in range(n):
        args.append(ctx.int(('h', 'mi', 's', 'ms')[k], -big, big))
    check_new(ctx, bs, args)


def new_clock(ctx, bs):
    """Time components near their limits, day at the end of a month"""
    y = ctx.int('y', 100, 9000, 2024)
    mo = ctx.int('mo', 1, 12)
    d = ctx.int('d', 27, 31)
    args = [y, mo, d, ctx.int('h', -1, 25), ctx.int('mi', -1, 61), ctx.int('s', -1, 61), ctx.int('ms', -1, 1001)]
    check_new(ctx, bs, args[:3 + ctx.choice('n', 4) + 1])


def new_carry(ctx, bs):
    """One or two time components far out of range"""
    y = window_year(ctx)
    mo, d = ctx.int('mo', 1, 12), ctx.pick('d', (1, 28))
    args = [y, mo, d]
    last = ctx.choice('last', 4)
    big = ctx.choice('big', last + 1)
    for k in range(last + 1):
        if k == last or k == big:
            scale = (24, 1440, 86400, 86400000)[k] * ctx.pick('days', (1, 40))
            args.append(ctx.int(('H', 'MI', 'S', 'MS')[k], -scale, scale))
        else:
            args.append(ctx.pick(('h', 'mi', 's')[k], (0, 59 if k else 23)))
    check_new(ctx, bs, args)


def new_date(ctx, bs):
    """Months and days out of range, any year"""
    y = ctx.int('y', 100, 9000, 2024)
    mo = ctx.int('mo', -130, 140, 1)
    d = ctx.int('d', -70, 100, 1)
    check_new(ctx, bs, [y, mo, d])


def new_far(ctx, bs):
    """Days far out of range"""
    y = ctx.int('y', 100, 9000, 2024) if ctx.params['anyyear'] else window_year(ctx)
    mo = ctx.pick('mo', (1, 2, 3, 12, -30, 40))
    base = ctx.pick('base', (365, 1461, -365, -1461, 3000, -3000, 10000, -10000, 5000, -5000))
    k = ctx.int('k', -20, 20)
    if base == 10000 or base == -10000:
        k = abs(k)
        k = -k if base > 0 else k
    check_new(ctx, bs, [y, mo, base + k])


WINDOWS = (2020, 1896, 1996, 100, 8990, 2096, 400, 1600, 1970, 4800)


def window_year(ctx):
    """A year in one of ten windows of nine years"""
    return ctx.pick('window', WINDOWS) + ctx.int('dy', 0, 8)


def sub_ms(ctx, name):
    return ctx.pick(name, (0, 1, 499, 500, 999))


def getters(ctx, bs):
    """The getters of host dates, of naive datetimes with microseconds and of aware datetimes in the local zone"""
    kind = ctx.choice('kind', 3)
    y = ctx.int('y', 100, 9000, 2024) if kind < 2 else window_year(ctx)
    mo, d = ctx.int('mo', 1, 12), ctx.int('d', 1, 28)
    if kind == 0:
        v = make_date(ctx, y, mo, d)
        want = [y, mo, d, 0, 0, 0, 0]
        p = parts_of(bs, v)
        ctx.check(all(same(a, b) for a, b in zip(p, want)), lambda: f'parts of the date {show(v)}: {show(p)}')
        ctx.reach('date')
        return
    if kind == 1:
        h, mi, s, ms = ctx.int('h', 0, 23), ctx.int('mi', 0, 59), ctx.int('s', 0, 59), ctx.int('ms', 0, 999)
    else:
        h, mi, s, ms = ctx.int('h', 0, 23), ctx.pick('mi', (0, 31, 59)), ctx.pick('s', (0, 59)), ctx.pick('ms', (0, 7, 999))
    us = ms * 1000 + sub_ms(ctx, 'us')
    if kind == 1:
        v = make_dt(ctx, y, mo, d, h, mi, s, us)
        want = [y, mo, d, h, mi, s, ms]
        p = parts_of(bs, v)
        ctx.check(all(same(a, b) for a, b in zip(p, want)), lambda: f'parts of {show(v)}: {show(p)}')
        ctx.reach('naive')
        return
    off = ctx.pick('off', (0, 60, -330, 840, -720))
    zone = ctx.int('zone', -720, 840)
    use_zone(ctx, zone)
    v = make_dt(ctx, y, mo, d, h, mi, s, us, datetime.timezone(datetime.timedelta(minutes=off)))
    p = parts_of(bs, v)
    want = instant(y, mo, d, h, mi, s, ms) + (zone - off) * 60000
    ctx.reach('aware')
    ctx.check(in_range(p) and instant(*p) == want, lambda: f'parts of {show(v)} at offset {show(zone)} minutes: {show(p)}')


def arithmetic(ctx, bs):
    """(d + n) - d = n and its kin"""
    y, mo, d = ctx.int('y', 100, 9000, 2024), ctx.int('mo', 1, 12), ctx.int('d', 1, 28)
    date = ctx.flag('date')
    if date:
        v = make_date(ctx, y, mo, d)
    else:
        v = make_dt(ctx, y, mo, d, ctx.int('h', 0, 23), ctx.int('mi', 0, 59), ctx.int('s', 0, 59), ctx.int('ms', 0, 999) * 1000 + sub_ms(ctx, 'us'))
    lim = ctx.pick('lim', (10, 2000, 100000000, 10 ** 12))
    n = ctx.int('n', -lim, lim)
    m = ctx.int('m', -3, 3)
    nn = float(n) if ctx.flag('float') else n
    w = binop(bs, '+', v, nn) if ctx.flag('left') else binop(bs, '+', nn, v)
    if w is None and (y < 140 or y > 8960):
        return
    ctx.check(ref_type(w) == 'datetime', lambda: f'{show(v)} + {show(n)} = {show(w)}')
    r = binop(bs, '-', w, v)
    ctx.reach('difference')
    ctx.check(ref_type(r) == 'number' and r == n, lambda: f'({show(v)} + {show(n)}) - {show(v)} = {show(r)}')
    r = binop(bs, '-', v, w)
    ctx.check(ref_type(r) == 'number' and r == -n, lambda: f'{show(v)} - ({show(v)} + {show(n)}) = {show(r)}')
    u = binop(bs, '+', w, m)
    r = binop(bs, '-', u, v)
    ctx.check(ref_type(r) == 'number' and r == n + m, lambda: f'{show(v)} + {show(n)} + {show(m)} - {show(v)} = {show(r)}')


def ticks(ctx, bs):
    """(d + n) - d = n on some days of any time; with the answer of Z3's floating-point theory where the code divides"""
    y, mo, d = ctx.pick('day', ((2024, 1, 1), (1969, 12, 31), (2000, 2, 29), (8999, 12, 31)))
    ms = ctx.int('ms', 0, 86399999)
    v = make_dt(ctx, y, mo, d, ms // 3600000, ms // 60000 % 60, ms // 1000 % 60, ms % 1000 * 1000)
    n = ctx.int('n', -100000, 100000)
    w = binop(bs, '+', v, n)
    r = binop(bs, '-', w, v)
    ctx.reach('difference')
    ctx.check(ref_type(r) == 'number' and r == n, lambda: f'({show(v)} + {show(n)}) - {show(v)} = {show(r)}')
    r = binop(bs, '-', v, w)
    ctx.check(ref_type(r) == 'number' and r == -n, lambda: f'{show(v)} - ({show(v)} + {show(n)}) = {show(r)}')


def sum_parts(ctx, bs):
    """The parts of d + n are those of the shifted instant"""
    y, mo, d = window_year(ctx), ctx.int('mo', 1, 12), ctx.int('d', 1, 28)
    h, mi, s, ms = ctx.int('h', 0, 23), ctx.pick('mi', (0, 59)), ctx.pick('s', (0, 59)), ctx.int('ms', 0, 999)
    n = ctx.int('n', -(10 ** 8), 10 ** 8) if not ctx.flag('small') else ctx.int('N', -2000, 2000)
    v = call(bs, 'datetimeNew', [y, mo, d, h, mi, s, ms])
    w = binop(bs, '+', v, n)
    p = parts_of(bs, w)
    want = instant(y, mo, d, h, mi, s, ms) + n
    ctx.reach('sum')
    ctx.check(in_range(p) and instant(*p) == want, lambda: f'{show(v)} + {show(n)} has the parts {show(p)}')


# ---- ISO text ------------------------------------------------------------------------------------------------------------

def num_at(t, i, n):
    """Number of n digits at i, or None"""
    v = 0
    if i + n > len(t):
        return None
    for k in range(n):
        if t[i + k] not in '0123456789':
            return None
        v = v * 10 + ord(t[i + k]) - 48
    return v


def read_iso(t):
    """(parts with milliseconds, offset in minutes) of YYYY-MM-DDTHH:MM:SS[.f{1,6}](Z|+-HH:MM), or None"""
    if len(t) < 20:
        return None
    if t[4] != '-' or t[7] != '-' or t[10] != 'T' or t[13] != ':' or t[16] != ':':
        return None
    p = [num_at(t, 0, 4), num_at(t, 5, 2), num_at(t, 8, 2), num_at(t, 11, 2), num_at(t, 14, 2), num_at(t, 17, 2)]
    i = 19
    ms = 0
    if t[i] == '.':
        i += 1
        k = i
        while i < len(t) and t[i] in '0123456789':
            if i - k < 3:
                ms = ms * 10 + ord(t[i]) - 48
            i += 1
        if not 0 < i - k <= 6:
            return None
        for _ in range(3 - (i - k)):
            ms = ms * 10
    if i >= len(t):
        return None
    if t[i] == 'Z':
        off = 0
        i += 1
    elif t[i] == '+' or t[i] == '-':
        h, m = num_at(t, i + 1, 2), num_at(t, i + 4, 2)
        if h is None or m is None or t[i + 3] != ':' or h > 23 or m > 59:
            return None
        off = h * 60 + m
        if t[i] == '-':
            off = -off
        i += 6
    else:
        return None
    if i != len(t) or any(x is None for x in p):
        return None
    if not in_range(p + [ms]) or p[0] < 1:
        return None
    return p + [ms], off


def iso_texts(ctx, bs, d):
    """ISO text of d by one of the ways"""
    way = ctx.choice('way', 4)
    if way == 0:
        return call(bs, 'datetimeISOFormat', [d])
    if way == 1:
        return call(bs, 'datetimeISOFormat', [d, False])
    if way == 2:
        return call(bs, 'stringNew', [d])
    return call(bs, 'jsonStringify', [d])[1:-1]


def round_trip(ctx, bs, d, p, zone):
    """Format and parse again; p = parts of d"""
    t = iso_texts(ctx, bs, d)
    ctx.check(ref_type(t) == 'string', lambda: f'ISO text of {show(d)}: {show(t)}')
    got = read_iso(t)
    ctx.check(got is not None, lambda: f'ISO text of {show(d)}: {show(t)}')
    ctx.check(all(a == b for a, b in zip(got[0], p)), lambda: f'ISO text of {show(d)}: {show(t)}')
    local = (instant(*p) - 719163 * 86400000) * 1000        # microseconds since 1970
    utc = [u for u in zone.utc_candidates(local)]
    ctx.check(any(local - got[1] * 60000000 == u for u in utc), lambda: f'ISO text of {show(d)}: {show(t)}, the offset is not that of the zone')
    back = call(bs, 'datetimeISOParse', [t])
    ctx.reach('round trip')
    ctx.check(ref_type(back) == 'datetime', lambda: f'{show(d)} formats to {show(t)}, parsed back {show(back)}')
    q = parts_of(bs, back)
    ctx.check(all(same(a, b) for a, b in zip(q, p)), lambda: f'{show(d)} formats to {show(t)}, parsed back {show(back)}')
    return t


def iso(ctx, bs):
    """Any datetime at any fixed whole-minute offset"""
    ctx.symdigits = True
    zone = use_zone(ctx, ctx.int('zone', -720, 840, 0))
    y, mo, d = ctx.int('y', 100, 9000, 2024), ctx.int('mo', 1, 12), ctx.int('d', 1, 28)
    last = ctx.flag('last')
    h, mi, s = (23, 59, 59) if last else (ctx.int('h', 0, 23), ctx.int('mi', 0, 59), ctx.int('s', 0, 59))
    ms = ctx.int('ms', 0, 999)
    v = make_dt(ctx, y, mo, d, h, mi, s, ms * 1000 + sub_ms(ctx, 'us'))
    round_trip(ctx, bs, v, [y, mo, d, h, mi, s, ms], zone)


def iso_new(ctx, bs):
    """Datetimes from datetimeNew"""
    ctx.symdigits = True
    zone = use_zone(ctx, ctx.int('zone', -720, 840, 0))
    y, mo, d = ctx.int('y', 100, 9000, 2024), ctx.int('mo', 1, 12), ctx.int('d', 28, 31)
    p = [y, mo, d, ctx.int('h', 0, 23), 0, ctx.int('s', 0, 59), ctx.int('ms', 0, 999)]
    ctx.assume(in_range(p))
    v = call(bs, 'datetimeNew', [float(x) for x in p] if ctx.flag('float') else list(p))
    ctx.check(ref_type(v) == 'datetime', lambda: f'datetimeNew({show(p)}) = {show(v)}')
    round_trip(ctx, bs, v, p, zone)


DT = datetime.datetime
CHANGES = ((-300, -240, DT(2024, 3, 10, 7)), (-240, -300, DT(2024, 11, 3, 6)), (0, 60, DT(2024, 3, 31, 1)), (60, 0, DT(2024, 10, 27, 1)), (660, 630, DT(2024, 4, 6, 15)),
           (630, 660, DT(2024, 10, 5, 15, 30)), (825, 765, DT(2023, 4, 1, 14)), (345, 330, DT(2023, 6, 30, 18, 15)), (-210, -150, DT(2023, 3, 12, 5, 30)))


def iso_dst(ctx, bs):
    """Local times around a change of the offset"""
    ctx.symdigits = True
    before, after, at = ctx.pick('zone', CHANGES)
    zone = use_zone(ctx, before, after, at)
    k = ctx.int('k', -5 * 3600 * 1000, 5 * 3600 * 1000)
    near = at + datetime.timedelta(minutes=min(before, after))
    local = (near - DT(1970, 1, 1)) // datetime.timedelta(milliseconds=1) + k
    utc = zone.utc_candidates(local * 1000)
    ctx.assume(len(utc) > 0)
    base = DT(near.year, near.month, near.day)
    day0 = (base - DT(1970, 1, 1)) // datetime.timedelta(milliseconds=1)
    off = local - day0
    day = near.day
    if off < 0 or off >= 86400000:
        ctx.assume(False)
    p = [near.year, near.month, day, off // 3600000, off // 60000 % 60, off // 1000 % 60, off % 1000]
    v = make_dt(ctx, p[0], p[1], p[2], p[3], p[4], p[5], p[6] * 1000)
    ctx.reach('twice' if len(utc) == 2 else 'once')
    round_trip(ctx, bs, v, p, zone)


def iso_date(ctx, bs):
    """isDate text, and parsing it"""
    ctx.symdigits = True
    use_zone(ctx, ctx.int('zone', -720, 840, 0))
    y, mo, d = ctx.int('y', 100, 9000, 2024), ctx.int('mo', 1, 12), ctx.int('d', 1, 31)
    p = [y, mo, d, 0, 0, 0, 0]
    ctx.assume(in_range(p))
    v = make_date(ctx, y, mo, d) if ctx.flag('date') else make_dt(ctx, y, mo, d, ctx.int('h', 0, 23), 59, 59, 999000)
    t = call(bs, 'datetimeISOFormat', [v, ctx.pick('true', (True, 1, 'yes'))])
    ok = ref_type(t) == 'string' and len(t) == 10 and t[4] == '-' and t[7] == '-' and num_at(t, 0, 4) == y and num_at(t, 5, 2) == mo and num_at(t, 8, 2) == d
    ctx.check(ok, lambda: f'date text of {show(v)}: {show(t)}')
    back = call(bs, 'datetimeISOParse', [t])
    ctx.reach('date')
    ctx.check(ref_type(back) == 'datetime', lambda: f'{show(t)} parses to {show(back)}')
    q = parts_of(bs, back)
    ctx.check(all(same(a, b) for a, b in zip(q, p)), lambda: f'{show(t)} parses to {show(back)}')


BASES = ('2024-02-28T09:05:07.123+05:30', '2023-12-31T23:59:59-00:30', '1999-10-10T10:10:10Z', '0400-06-30T00:00:00.5+14:00', '2024-01-01T00:00:00.123456-12:00', '2024-01-01T00:00:00.12Z')
ODD = '0123456789-:.TZ+ ax\n\u0661'


PAST = '\n\r\t 0-TZ\u0661\u2028'


def open_text(t):
    """Texts the property leaves open"""
    return len(t) < 20 and not (len(t) == 11 and t[10] in '\n\r ') or '-W' in t or t[11:13] == '24' or t[17:19] == '60' or t[0:4] == '0000' or not (t[4] == '-' and t[7] == '-')


def parse_check(ctx, bs, t, zone):
    r = call(bs, 'datetimeISOParse', [t])
    got = read_iso(t)
    if got is None:
        if open_text(t) and r is not None:
            return
        ctx.reach('invalid')
        ctx.check(r is None, lambda: f'{show(t)} is no ISO datetime, parses to {show(r)}')
        return
    p, off = got
    if p[0] < 2 or p[0] > 9998:
        return
    ctx.reach('valid')
    ctx.check(ref_type(r) == 'datetime', lambda: f'{show(t)} parses to {show(r)}')
    q = parts_of(bs, r)
    ctx.check(in_range(q) and instant(*q) == instant(*p) + (zone - off) * 60000, lambda: f'{show(t)} parses to {show(r)} in a zone of {show(zone)} minutes')


def parse_digits(ctx, bs):
    """Texts of the right shape with any digits in some fields"""
    ctx.symdigits = True
    zone = ctx.int('zone', -720, 840, 0) if ctx.flag('z') else 0
    use_zone(ctx, zone)
    t = ctx.pick('base', BASES)
    fields = ((0, 4), (5, 7), (8, 10), (11, 13), (14, 16), (17, 19), (20, 23), (len(t) - 5, len(t) - 3), (len(t) - 2, len(t)))
    n = ctx.params['fields']
    for k in range(n):
        i, j = ctx.pick(f'f{k}', fields)
        if all(c in '0123456789' for c in t[i:j]):
            t = t[:i] + ctx.str(f't{k}', j - i, '0123456789') + t[j:]
    parse_check(ctx, bs, t, zone)


def parse_odd(ctx, bs):
    """Texts with changed, inserted or removed characters"""
    ctx.symdigits = True
    use_zone(ctx, 0)
    t = ctx.pick('base', BASES)
    for k in range(ctx.params['edits']):
        i = ctx.choice(f'i{k}', 30)
        if i >= len(t):
            return
        how = ctx.choice(f'how{k}', 3)
        t = t[:i] + (ctx.str(f'c{k}', 1, ODD) if how != 1 else '') + t[i + (1 if how != 2 else 0):]
    parse_check(ctx, bs, t, 0)


def parse_date(ctx, bs):
    """Date texts with any digits"""
    ctx.symdigits = True
    use_zone(ctx, 0)
    t = ctx.str('y', 4, '0129') + '-' + ctx.str('m', 2, '0123456789') + '-' + ctx.str('d', 2, '0123456789')
    how = ctx.choice('how', 4)
    if how:
        u = t + ctx.str('u', 1, PAST) if how == 1 else ctx.str('u', 1, PAST) + t if how == 2 else t[:8] + ctx.str('u', 2, '\u0660\uff11 \n')
        r = call(bs, 'datetimeISOParse', [u])
        ctx.reach('invalid')
        ctx.check(r is None, lambda: f'{show(u)} is no date, parses to {show(r)}')
        return
    r = call(bs, 'datetimeISOParse', [t])
    p = [num_at(t, 0, 4), num_at(t, 5, 2), num_at(t, 8, 2), 0, 0, 0, 0]
    if p[0] == 0:
        return
    if in_range(p):
        ctx.reach('valid')
        ctx.check(ref_type(r) == 'datetime', lambda: f'{show(t)} parses to {show(r)}')
        q = parts_of(bs, r)
        ctx.check(all(same(a, b) for a, b in zip(q, p)), lambda: f'{show(t)} parses to {show(r)}')
    else:
        ctx.reach('invalid')
        ctx.check(r is None, lambda: f'{show(t)} is no date, parses to {show(r)}')


def parse_junk(ctx, bs):
    """Short arbitrary texts are null"""
    use_zone(ctx, 0)
    t = ctx.str('t', ctx.choice('n', 4), '0-:TZ. 1') + ctx.pick('tail', ('', 'T00:00:00Z', '-01', '-01T', '-13-01', '-02-30', '-01-32', '-02-30T00:00:00Z', '-01-01T00:00:00', '-1-1'))
    r = call(bs, 'datetimeISOParse', [t])
    ctx.reach('junk')
    if len(t) >= 10 and num_at(t, 0, 4) is not None:
        return
    ctx.check(r is None, lambda: f'{show(t)} parses to {show(r)}')


HARNESSES = [
    Harness(new_time, order='random', weight=1.5, quick={'big': 5000}, bounds='y 100..9000, day 1..28, time components -5000..5000'),
    Harness(new_clock, order='random', weight=1.5, bounds='y 100..9000, day 27..31, time components one beyond their limits'),
    Harness(new_carry, weight=1.5, order='random', strata=3, bounds='y in ten windows, two time components to +-40 days'),
    Harness(new_date, weight=2, order='random', bounds='y 100..9000, month -130..140, day -70..100'),
    Harness(new_far, weight=2, order='random', quick={'anyyear': False}, thorough={'anyyear': True}, bounds='y in ten windows (thorough: 100..9000), 6 months, days to +-10000 in windows of 40'),
    Harness(getters, order='random', bounds='dates, naive and (y in ten windows) aware datetimes, zone -720..840'),
    Harness(arithmetic, order='random', weight=1, bounds='n to +-10^12, y 100..9000'),
    Harness(ticks, weight=1.5, bounds='any time of 4 days, n to +-10^5'),
    Harness(sum_parts, order='random', bounds='n to +-10^8, y in ten windows of nine years'),
    Harness(iso, order='random', weight=1.5, bounds='y 100..9000, zone -720..840'),
    Harness(iso_new, order='random', bounds='days 28..31'),
    Harness(iso_dst, order='random', bounds='9 changes of offset, +-5 h in ms'),
    Harness(iso_date, order='random', bounds='any date y 100..9000'),
    Harness(parse_digits, weight=1.5, order='random', quick={'fields': 2}, thorough={'fields': 3}, bounds='any digits in 2 or 3 of 9 fields, zone -720..840'),
    Harness(parse_odd, weight=1.5, order='random', quick={'edits': 1}, thorough={'edits': 2}, bounds='edits of 6 texts'),
    Harness(parse_date, bounds='4x4x10^4 digit texts, symbolic, and one more character'),
    Harness(parse_junk, bounds='<= 3 characters and 10 endings'),
]
QUICK_SECONDS = 75
