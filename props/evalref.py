"""Reference expression semantics (C03, C05, C08)."""

import datetime

from props.common import ref_type, ref_compare, ref_truthy, ref_dt, is_num

ALIASES = {
    'abs': 'mathAbs', 'acos': 'mathAcos', 'asin': 'mathAsin', 'atan': 'mathAtan', 'atan2': 'mathAtan2', 'ceil': 'mathCeil',
    'charCodeAt': 'stringCharCodeAt', 'cos': 'mathCos', 'date': 'datetimeNew', 'day': 'datetimeDay', 'endsWith': 'stringEndsWith',
    'indexOf': 'stringIndexOf', 'fixed': 'numberToFixed', 'floor': 'mathFloor', 'fromCharCode': 'stringFromCharCode', 'hour': 'datetimeHour',
    'lastIndexOf': 'stringLastIndexOf', 'len': 'stringLength', 'lower': 'stringLower', 'ln': 'mathLn', 'log': 'mathLog', 'max': 'mathMax',
    'min': 'mathMin', 'millisecond': 'datetimeMillisecond', 'minute': 'datetimeMinute', 'month': 'datetimeMonth', 'now': 'datetimeNow',
    'parseInt': 'numberParseInt', 'parseFloat': 'numberParseFloat', 'pi': 'mathPi', 'rand': 'mathRandom', 'replace': 'stringReplace',
    'rept': 'stringRepeat', 'round': 'mathRound', 'second': 'datetimeSecond', 'sign': 'mathSign', 'sin': 'mathSin', 'slice': 'stringSlice',
    'sqrt': 'mathSqrt', 'startsWith': 'stringStartsWith', 'text': 'stringNew', 'tan': 'mathTan', 'today': 'datetimeToday', 'trim': 'stringTrim',
    'upper': 'stringUpper', 'year': 'datetimeYear'
}


def num_text(x):
    """Shortest text of a number, no fraction on integral values (|x| < 1e16)"""
    if isinstance(x, int):
        return str(x)
    if x == int(x):
        return str(int(x))
    return repr(float(x))


def two(n):
    return ('0' if n < 10 else '') + str(n)


def three(n):
    return ('00' if n < 10 else '0' if n < 100 else '') + str(n)


def ref_iso(d):
    """ISO text of a datetime, TZ=UTC"""
    d = ref_dt(d)
    ms = d.microsecond // 1000
    y = str(d.year)
    y = '0000'[len(y):] + y
    frac = '.' + three(ms) if d.microsecond != 0 else ''
    return y + '-' + two(d.month) + '-' + two(d.day) + 'T' + two(d.hour) + ':' + two(d.minute) + ':' + two(d.second) + frac + '+00:00'


def json_str(s):
    """JSON text of a string without control characters or surrogates"""
    out = '"'
    for c in s:
        if c == '"' or c == '\\':
            out = out + '\\' + c
        elif c < ' ' or c > '~':
            n = ord(c)
            if n > 0xffff:
                n -= 0x10000
                out = out + '\\u%04x\\u%04x' % (0xd800 + n // 1024, 0xdc00 + n % 1024)
            else:
                out = out + '\\u%04x' % n
        else:
            out = out + c
    return out + '"'


def ref_json(v):
    t = ref_type(v)
    if t == 'array':
        return '[' + ','.join([ref_json(x) for x in v]) + ']'
    if t == 'object':
        return '{' + ','.join([json_str(k) + ':' + ref_json(v[k]) for k in sorted(v)]) + '}'
    if t == 'string':
        return json_str(v)
    if t == 'number' or t == 'boolean' or t == 'null':
        return ref_string(v)
    if t == 'datetime' or t == 'function':
        return json_str(ref_string(v))
    return 'null'


def ref_string(v):
    t = ref_type(v)
    if t == 'null':
        return 'null'
    if t == 'string':
        return v
    if t == 'boolean':
        return 'true' if v else 'false'
    if t == 'number':
        return num_text(v)
    if t == 'datetime':
        return ref_iso(v)
    if t == 'array' or t == 'object':
        return ref_json(v)
    if t == 'function':
        return '<function>'
    if t == 'regex':
        return '<regex>'
    return str(v)


SKIP = object()     # the property does not fix the result


def ref_binop(op, a, b):
    ta, tb = ref_type(a), ref_type(b)
    if op == '&&':
        return b if ref_truthy(a) else a
    if op == '||':
        return a if ref_truthy(a) else b
    if op in ('==', '!=', '<', '<=', '>', '>='):
        c = ref_compare(a, b)
        return {'==': c == 0, '!=': c != 0, '<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0}[op]
    if op == '+' and (ta == 'string' or tb == 'string'):
        return ref_string(a) + ref_string(b)
    try:
        if ta == 'number' and tb == 'number':
            if op == '+':
                return a + b
            if op == '-':
                return a - b
            if op == '*':
                return a * b
            if op == '/':
                return None if b == 0 else a / b
            if op == '%':
                return None if b == 0 else a % b
            if a == 0 and b < 0:
                return None
            if a < 0 and b != int(b):
                return None
            return float(a) ** float(b)
        if op == '+' and ta == 'datetime' and tb == 'number':
            return ref_dt(a) + datetime.timedelta(milliseconds=b)
        if op == '+' and ta == 'number' and tb == 'datetime':
            return ref_dt(b) + datetime.timedelta(milliseconds=a)
        if op == '-' and ta == 'datetime' and tb == 'datetime':
            d = ref_dt(a) - ref_dt(b)
            us = (d.days * 86400 + d.seconds) * 1000000 + d.microseconds
            return us // 1000 if us % 1000 == 0 else SKIP
    except (ArithmeticError, ValueError):
        return None
    return None


def ref_unop(op, a):
    if op == '!':
        return not ref_truthy(a)
    return -a if is_num(a) else None


class NegZero(Exception):
    """A negative zero arises: its text is not fixed by the properties"""


def negzero(r, *operands):
    if is_num(r) and r == 0 and any(is_num(o) and (o < 0 or len(operands) == 1) for o in operands):
        raise NegZero()
    return r


def ref_eval(e, get, callfn):
    """Big-step reading of an expression tree. get(name) -> value, callfn(name, args) -> value"""
    (k, v), = e.items()
    if k == 'number' or k == 'string':
        return v
    if k == 'variable':
        return {'null': None, 'true': True, 'false': False}[v] if v in ('null', 'true', 'false') else get(v)
    if k == 'group':
        return ref_eval(v, get, callfn)
    if k == 'unary':
        a = ref_eval(v['expr'], get, callfn)
        return negzero(ref_unop(v['op'], a), a)
    if k == 'binary':
        op = v['op']
        a = ref_eval(v['left'], get, callfn)
        if op == '&&' and not ref_truthy(a) or op == '||' and ref_truthy(a):
            return a
        b = ref_eval(v['right'], get, callfn)
        r = ref_binop(op, a, b)
        return negzero(r, a, b) if op in ('*', '/', '%', '**') else r
    args = v.get('args', [])
    if v['name'] == 'if':
        c = ref_eval(args[0], get, callfn) if args else None
        ix = 1 if ref_truthy(c) else 2
        return ref_eval(args[ix], get, callfn) if len(args) > ix else None
    return callfn(v['name'], [ref_eval(a, get, callfn) for a in args])
