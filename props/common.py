"""Helpers shared by the harnesses (work on symbolic and on plain values)."""

import datetime
import functools
import math
import re
import uuid

ALPHA = 'abB0 é\U00010000\uffff'
REGEX = re.compile('a')
UUID = uuid.UUID(int=5)


def host_fn(args, options):
    return None


def make_dt(ctx, y, mo, d, h=0, mi=0, s=0, us=0, tz=None):
    """A datetime from (possibly symbolic) components"""
    if ctx.symbolic:
        from symx import dt
        return dt.SymDT.make((y, mo, d, h, mi, s, us), None, tz)
    return datetime.datetime(y, mo, d, h, mi, s, us, tzinfo=tz)


def make_date(ctx, y, mo, d):
    if ctx.symbolic:
        from symx import dt
        return dt.SymDate.make(y, mo, d)
    return datetime.date(y, mo, d)


SCALARS = ('null', 'bool', 'int', 'float', 'str', 'dt', 'date', 'aware', 'fn', 'regex', 'unknown')
ALL = SCALARS + ('list', 'obj')


def gen(ctx, name, kinds=ALL, depth=1, maxlen=2, strlen=2, alpha=ALPHA, lo=-2, hi=2, inner=None, keys=('a', 'b')):
    """A BareScript value: the kind is a forked choice, the payload is symbolic"""
    if depth <= 0:
        kinds = [k for k in kinds if k not in ('list', 'obj')]
    kind = ctx.pick(name + '.k', kinds)
    if kind == 'null':
        return None
    if kind == 'bool':
        return ctx.flag(name + '.b')
    if kind == 'int':
        return ctx.int(name + '.i', lo, hi)
    if kind == 'float':
        return ctx.num(name + '.f', lo, hi, 4)
    if kind == 'str':
        return ctx.str(name + '.s', ctx.choice(name + '.n', strlen + 1), alpha)
    if kind == 'dt':
        return make_dt(ctx, 2024, 1, ctx.int(name + '.d', 1, 3), 0, 0, 0, ctx.int(name + '.us', 0, 4) * 500)
    if kind == 'date':
        return make_date(ctx, 2024, 1, ctx.int(name + '.d', 1, 3))
    if kind == 'aware':
        off = ctx.pick(name + '.tz', (0, -60, 60))
        return datetime.datetime(2024, 1, 2, tzinfo=datetime.timezone(datetime.timedelta(minutes=off)))
    if kind == 'fn':
        return host_fn
    if kind == 'regex':
        return REGEX
    if kind == 'unknown':
        return UUID
    inner = inner or kinds
    if kind == 'list':
        n = ctx.choice(name + '.n', maxlen + 1)
        return [gen(ctx, f'{name}.{i}', inner, depth - 1, maxlen, strlen, alpha, lo, hi, inner, keys) for i in range(n)]
    if kind == 'obj':
        out = {}
        for key in ctx.pick(name + '.ks', ((), ('a',), ('b',), ('b', 'a'))):
            out[key] = gen(ctx, f'{name}.{key}', inner, depth - 1, maxlen, strlen, alpha, lo, hi, inner, keys)
        return out
    raise ValueError(kind)


def is_num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def ref_type(v):
    if v is None:
        return 'null'
    if isinstance(v, str):
        return 'string'
    if isinstance(v, bool):
        return 'boolean'
    if isinstance(v, (int, float)):
        return 'number'
    if isinstance(v, datetime.date):
        return 'datetime'
    if isinstance(v, dict):
        return 'object'
    if isinstance(v, list):
        return 'array'
    if callable(v):
        return 'function'
    if isinstance(v, re.Pattern):
        return 'regex'
    return 'unknown'


def ref_dt(v):
    """Naive local datetime of a date/datetime (TZ=UTC in the checks)"""
    if isinstance(v, datetime.datetime):
        if v.tzinfo is not None:
            return v.astimezone(datetime.timezone.utc).replace(tzinfo=None)
        return v
    return datetime.datetime(v.year, v.month, v.day)


def sgn(a, b):
    if a < b:
        return -1
    if a == b:
        return 0
    return 1


def ref_compare(a, b):
    """The documented total order, written independently"""
    ta, tb = ref_type(a), ref_type(b)
    if ta == 'null' or tb == 'null':
        return (ta != 'null') - (tb != 'null')
    if ta != tb:
        return sgn(ta, tb)
    if ta in ('number', 'string', 'boolean'):
        return sgn(a, b)
    if ta == 'datetime':
        return sgn(ref_dt(a), ref_dt(b))
    if ta == 'array':
        for x, y in zip(a, b):
            r = ref_compare(x, y)
            if r != 0:
                return r
        return sgn(len(a), len(b))
    if ta == 'object':
        ka, kb = sorted(a), sorted(b)
        for x, y in zip(ka, kb):
            r = sgn(x, y)
            if r != 0:
                return r
            r = ref_compare(a[x], b[y])
            if r != 0:
                return r
        return sgn(len(ka), len(kb))
    return 0


def ref_truthy(v):
    t = ref_type(v)
    if t == 'null':
        return False
    if t == 'boolean':
        return v
    if t == 'number':
        return v != 0
    if t == 'string':
        return len(v) != 0
    if t == 'array':
        return len(v) != 0
    return True


def same(a, b):
    """Same BareScript value: structural, bool distinct from number, int and float of one number the same"""
    if a is b:
        return True
    ta, tb = ref_type(a), ref_type(b)
    if ta != tb:
        return False
    if ta in ('number', 'string', 'boolean'):
        return a == b
    if ta == 'datetime':
        return ref_dt(a) == ref_dt(b)
    if ta == 'array':
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if ta == 'object':
        return sorted(a) == sorted(b) and all(same(a[k], b[k]) for k in a)
    if ta == 'regex':
        return a.pattern == b.pattern and a.flags == b.flags
    return False


def snapshot(v, depth=0):
    """Deep copy of containers, sharing the leaves"""
    if isinstance(v, list):
        return [snapshot(x, depth + 1) for x in v]
    if isinstance(v, dict):
        return {k: snapshot(x, depth + 1) for k, x in v.items()}
    return v


def ident(a, b):
    """Identical structure: same leaves (by identity or equal value and host type), same containers contents"""
    if a is b:
        return True
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(ident(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(ident(a[k], b[k]) for k in a)
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return False
    return ref_type(a) == ref_type(b) and same(a, b)


def show(v):
    try:
        return repr(v)[:300]
    except Exception:       # pylint: disable=broad-exception-caught
        return '<unprintable>'


def call(bs, name, args, options=None):
    """Call a library function the way a script does (wrapper with failure values), on globals g"""
    g = dict(bs.library.SCRIPT_FUNCTIONS)
    names = []
    for i, a in enumerate(args):
        g[f'v{i}'] = a
        names.append({'variable': f'v{i}'})
    o = {'globals': g, 'statementCount': 0}
    if options:
        o.update(options)
    return bs.runtime.evaluate_expression({'function': {'name': name, 'args': names}}, o, None, False)


def binop(bs, op, a, b):
    return bs.runtime.evaluate_expression({'binary': {'op': op, 'left': {'variable': 'a'}, 'right': {'variable': 'b'}}},
                                          {'globals': {'a': a, 'b': b}})


def unop(bs, op, a):
    return bs.runtime.evaluate_expression({'unary': {'op': op, 'expr': {'variable': 'a'}}}, {'globals': {'a': a}})
