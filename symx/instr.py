"""AST instrumentation of the real modules and the runtime hooks the instrumented code calls."""

import ast
import datetime
import functools
import importlib.abc
import importlib.util
import io
import math
import os
import re
import statistics
import sys
import types

from . import core
from . import rx
from .vals import (SYM, SymInt, SymFloat, SymStr, SymChar, pin, plain, to_float, elems, str_join, is_symnum, elem_test, int_var, grid)

PINLOG = os.environ.get("PINLOG")
EXECUTED = set()        # qualified names of instrumented functions that ran
CMODELS = {}            # callable -> model for calls with symbolic arguments


# ---- AST ------------------------------------------------------------------------------------------------------------------

NOWRAP = {'super', 'locals', 'globals', 'vars', 'isinstance', 'issubclass', 'len', 'callable', 'id', '__sx_c__', '__sx_cm__', '__sx_gi__', '__sx_k__', '__sx_in__', '__sx_f__'}


class Tx(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.stack = []

    def _name(self, n):
        return ast.Name(id=n, ctx=ast.Load())

    def _func(self, node):
        self.stack.append(node.name)
        qual = self.modname + '.' + '.'.join(self.stack)
        decs = node.decorator_list
        node.decorator_list = []
        returns, node.returns = node.returns, None
        for a in ast.walk(node.args):
            if isinstance(a, ast.arg):
                a.annotation = None
        self.generic_visit(node)
        node.decorator_list = decs
        self.stack.pop()
        stmt = ast.Expr(ast.Call(func=self._name('__sx_fn__'), args=[ast.Constant(qual)], keywords=[]))
        i = 1 if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
        node.body.insert(i, stmt)
        return node

    visit_FunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is None:
            return node
        node.value = self.visit(node.value)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute):
            v = f.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super':
                return node
            return ast.Call(func=self._name('__sx_cm__'), args=[v, ast.Constant(f.attr)] + node.args, keywords=node.keywords)
        if isinstance(f, ast.Name) and f.id in NOWRAP:
            return node
        return ast.Call(func=self._name('__sx_c__'), args=[f] + node.args, keywords=node.keywords)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), spec], ctx=ast.Load()))
        return ast.Call(func=self._name('__sx_f__'), args=parts, keywords=[])

    def _key(self, sl, obj):
        if isinstance(sl, ast.Slice):
            def w(x):
                return None if x is None else ast.Call(func=self._name('__sx_k__'), args=[ast.Constant(None), x], keywords=[])
            return ast.Slice(lower=w(sl.lower), upper=w(sl.upper), step=w(sl.step))
        return ast.Call(func=self._name('__sx_k__'), args=[obj, sl], keywords=[])

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            sl = node.slice
            if isinstance(sl, ast.Slice):
                none = ast.Constant(None)
                sl = ast.Call(func=self._name('slice'), args=[sl.lower or none, sl.upper or none, sl.step or none], keywords=[])
            return ast.Call(func=self._name('__sx_gi__'), args=[node.value, sl], keywords=[])
        if isinstance(node.slice, ast.Constant):
            return node
        obj = node.value
        simple = ast.Constant(None)
        if isinstance(obj, ast.Name):
            simple = ast.Name(id=obj.id, ctx=ast.Load())
        node.slice = self._key(node.slice, simple)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            call = ast.Call(func=self._name('__sx_in__'), args=[node.left, node.comparators[0]], keywords=[])
            if isinstance(node.ops[0], ast.NotIn):
                return ast.UnaryOp(op=ast.Not(), operand=call)
            return call
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.Call(func=self._name('__sx_mod__'), args=[node.left, node.right], keywords=[])
        return node


def instrument(source, modname, filename):
    tree = ast.parse(source, filename)
    tree = Tx(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')


# ---- hooks ------------------------------------------------------------------------------------------------------------------

def _fn(name):
    EXECUTED.add(name)


def deep_has(x, depth=0):
    t = type(x)
    if t in SYM or hasattr(t, '__sym_pin__'):
        return True
    if depth < 4:
        if t is list or t is tuple:
            return any(deep_has(y, depth + 1) for y in x)
        if t is dict:
            return any(deep_has(y, depth + 1) or deep_has(k, depth + 1) for k, y in x.items())
    return False


def deep_pin(x, depth=0):
    t = type(x)
    if t in SYM or hasattr(t, '__sym_pin__'):
        return pin(x)
    if depth < 6 and deep_has(x):
        if t is list:
            return [deep_pin(y, depth + 1) for y in x]
        if t is tuple:
            return tuple(deep_pin(y, depth + 1) for y in x)
        if t is dict:
            return {deep_pin(k): deep_pin(y, depth + 1) for k, y in x.items()}
    return x


# callables that treat values transparently (no inspection, or inspection through the proxies' own dunders)
TRANSPARENT = {
    isinstance, issubclass, list, tuple, dict, len, zip, enumerate, map, filter, reversed, any, all, sorted, max, min, sum, iter, next,
    functools.partial, functools.cmp_to_key, functools.reduce, id, callable, getattr, setattr, hasattr, slice, object, abs, divmod, bool,
    Exception, ValueError, TypeError, KeyError, IndexError, StopIteration, RuntimeError, set, frozenset, hash, pow, property
}
TRANSPARENT_METHODS = {
    list: {'append', 'extend', 'remove', 'index', 'count', 'sort', 'reverse', 'copy', 'clear'},
    dict: {'values', 'items', 'keys', 'copy', 'clear', 'update'},
    io.StringIO: set(),
}


def is_instrumented(f):
    t = type(f)
    if t is types.FunctionType:
        return '__symx__' in f.__globals__
    if t is types.MethodType:
        return is_instrumented(f.__func__)
    if t is functools.partial:
        return True
    if t is type or isinstance(f, type):
        init = f.__dict__.get('__init__')
        if type(init) is types.FunctionType:
            return '__symx__' in init.__globals__
        m = sys.modules.get(f.__module__)
        return m is not None and '__symx__' in m.__dict__
    if t is types.BuiltinFunctionType or t is types.BuiltinMethodType or t is types.MethodDescriptorType or t is types.WrapperDescriptorType:
        return False
    call = getattr(t, '__call__', None)
    return type(call) is types.FunctionType and '__symx__' in call.__globals__


class KeyTuple(tuple):
    """A dictionary key with symbolic parts: found by comparison, stored by the hash of its current value"""
    __slots__ = ()

    def __hash__(self):
        return hash(key_plain(self))


def key_plain(x):
    if isinstance(x, tuple):
        return tuple(key_plain(y) for y in x)
    t = type(x)
    if t in SYM:
        return plain(x)
    return t.__name__ if hasattr(t, '__sym_pin__') else x


def symkey(k, c=()):
    t = type(k)
    return t in SYM or ((t is tuple or t is KeyTuple) and (deep_has(k) or (type(c) in (dict, set) and any(type(x) is KeyTuple for x in c))))


def keys_equal(a, b):
    """Equality of two keys, forking; types first, so that unlike keys are not compared"""
    ta, tb = isinstance(a, tuple), isinstance(b, tuple)
    if ta or tb:
        return ta and tb and len(a) == len(b) and all(keys_equal(x, y) for x, y in zip(a, b))
    return (type(plain(a)) is type(plain(b)) or (isinstance(a, (int, float)) and isinstance(b, (int, float))) or (hasattr(type(a), '__sym_pin__') or hasattr(type(b), '__sym_pin__'))) and a == b


def _c(f, *args, **kw):
    for a in args:
        if type(a) in SYM:
            return _csym(f, args, kw)
    t = type(f)
    if t is types.FunctionType and '__symx__' in f.__globals__:
        return f(*args, **kw)
    if t in SYM:
        _not_callable(f)
    if args or kw:
        try:
            m = CMODELS.get(f)
        except TypeError:
            m = None
        if m is not None or not _is_transparent(f):
            for a in args:
                if deep_has(a):
                    return _csym(f, args, kw)
            for a in kw.values():
                if deep_has(a):
                    return _csym(f, args, kw)
    return f(*args, **kw)


def _is_transparent(f):
    try:
        return f in TRANSPARENT or is_instrumented(f)
    except TypeError:
        return is_instrumented(f)


def _not_callable(f):
    name = type(f).__mro__[-2].__name__ if type(f) in SYM else type(f).__name__
    raise TypeError(f"'{name}' object is not callable")


def _csym(f, args, kw):
    if not callable(f):
        _not_callable(f)
    try:
        m = CMODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*args, **kw)
    if _is_transparent(f):
        return f(*args, **kw)
    if isinstance(f, type) and issubclass(f, BaseException):
        return f(*args, **kw)
    s = getattr(f, '__self__', None)
    if s is not None and not isinstance(s, types.ModuleType):
        # a bound method of a C object: same rules as a method call
        return _cm(s, f.__name__, *args, **kw)
    if PINLOG: print("PIN", f)
    return f(*deep_pin(args), **{k: deep_pin(v) for k, v in kw.items()})


def _cm(obj, name, *args, **kw):
    t = type(obj)
    if t in SYM:
        return getattr(obj, name)(*args, **kw)
    if t is datetime.datetime and name == 'astimezone' and getattr(core.CUR, 'zone', None) is not None:
        # the zone of the process is part of the inputs
        from . import dt    # pylint: disable=import-outside-toplevel,cyclic-import
        return dt.ASTIMEZONE[0](obj, *args, **kw)
    if t is str:
        if name == 'join':
            return str_join(obj, args[0])
        for a in args:
            if type(a) in SYM:
                return getattr(SymStrView(obj), name)(*args, **kw)
        return getattr(obj, name)(*args, **kw)
    if t is dict:
        if args and symkey(args[0], obj) and name in ('get', 'pop', 'setdefault', '__getitem__', '__contains__'):
            k = dict_key(obj, args[0])
            if type(k) is _Missing and name == 'setdefault':
                k = KeyTuple(args[0]) if isinstance(args[0], tuple) else pin(args[0])
            args = (k,) + args[1:]
        return getattr(obj, name)(*args, **kw)
    if t is set:
        if args and symkey(args[0], obj) and name in ('add', 'discard', 'remove'):
            k = dict_key(obj, args[0])
            args = (k if type(k) is not _Missing else KeyTuple(args[0]) if isinstance(args[0], tuple) else pin(args[0]),)
        return getattr(obj, name)(*args, **kw)
    if t is list:
        if args and type(args[0]) in SYM and name in ('pop', 'insert'):
            args = (pin(args[0]),) + args[1:]
        elif name == 'index' and len(args) > 1:
            args = (args[0],) + tuple(pin(a) for a in args[1:])
        return getattr(obj, name)(*args, **kw)
    if t is re.Pattern:
        if name in rx.METHODS and any(type(a) is SymStr for a in args):
            args = args if name not in ('sub', 'subn') else args
            if type(args[0]) is SymStr or type(args[-1]) is SymStr or any(type(a) is SymStr for a in args):
                return rx.METHODS[name](obj, *args, **kw)
        return getattr(obj, name)(*args, **kw)
    f = getattr(obj, name)
    return _c(f, *args, **kw)


def SymStrView(s):
    """A plain string as a SymStr object, so that the modelled methods run"""
    v = str.__new__(SymStr, s)
    v.es = tuple(s)
    v.p = s
    return v


def dict_key(d, k):
    """The key of d equal to the symbolic key k (forking), or a value that is not a key of d"""
    if isinstance(k, tuple):
        for key in d:
            if isinstance(key, tuple) and keys_equal(k, key):
                return key
        return _Missing(k)
    for key in d:
        if type(plain(key)) is type(plain(k)) or (isinstance(key, (int, float)) and is_symnum(k)):
            if k == key:
                return key
    return _Missing(k)


class _Missing:
    """A key that is in no dictionary"""
    def __init__(self, k):
        self.k = k


def list_index(obj, k):
    n = len(obj)
    if k >= n or k < -n:
        raise IndexError('list index out of range')
    return pin(k)


def _gi(obj, k):
    t = type(obj)
    if type(k) in SYM or (t is dict and symkey(k, obj)):
        if t is dict:
            key = dict_key(obj, k)
            if type(key) is _Missing:
                raise KeyError(deep_pin(k))
            return obj[key]
        if t is list or t is tuple or t is str or t is SymStr:
            if type(k) is SymInt:
                return obj[list_index(obj, k)]
        return obj[pin(k)] if not isinstance(obj, type) else obj[k]
    if type(k) is slice and (type(k.start) in SYM or type(k.stop) in SYM or type(k.step) in SYM):
        return obj[slice_norm(obj, k)]
    if t is types.GenericAlias or t is type:
        return obj[k]
    return obj[k]


def slice_norm(obj, k):
    """Clamp symbolic bounds to [-len, len] (one fork per side), then pin"""
    n = len(obj)

    def f(x):
        if type(x) is not SymInt:
            return pin(x) if type(x) in SYM else x
        if x >= n:
            return n
        if x <= -n:
            return -n if n else 0
        return pin(x)
    if k.step is not None and k.step != 1:
        return slice(pin(k.start), pin(k.stop), pin(k.step))
    return slice(f(k.start), f(k.stop))


def _k(obj, k):
    if symkey(k, obj):
        if type(obj) is list and type(k) is SymInt:
            return list_index(obj, k)
        if type(obj) is dict:
            key = dict_key(obj, k)
            if type(key) is not _Missing:
                return key
            return KeyTuple(k) if isinstance(k, tuple) else pin(k)
        return deep_pin(k)
    return k


def _in(x, c):
    t = type(c)
    if type(x) is SymStr and len(x.es) == 1 and t in (list, tuple, set, frozenset) and all(type(y) is str for y in c):
        return _in(x, ''.join([y for y in c if len(y) == 1]))       # one set test instead of one per character
    if symkey(x, c):
        if t is dict or t is set or t is frozenset:
            if t is dict or isinstance(x, tuple):
                return type(dict_key(c, x)) is not _Missing
            return any((type(plain(y)) is type(plain(x)) or (isinstance(y, (int, float)) and is_symnum(x))) and x == y for y in c)
        if t is str:
            return SymStrView(c).__contains__(x)
        if t not in (list, tuple, SymStr):
            try:
                return any(x == y for y in c)
            except TypeError:
                return deep_pin(x) in c
    return x in c


def _f(*parts):
    out = []
    sym = False
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            if conv == 114:
                v = repr(v)
            elif conv == 115:
                v = _c(str, v)
            elif conv == 97:
                v = ascii(pin(v))
            if type(v) is SymStr and spec == '':
                sym = True
                out.append(v)
            else:
                if spec == '' and (type(v) in SYM or hasattr(type(v), '__sym_str__')):
                    v = _c(str, v)
                    if type(v) is SymStr:
                        sym = True
                    out.append(v)
                else:
                    h = FORMAT_OF_NUM[0]
                    r = h(v, spec) if h is not None and type(v) is SymInt else None
                    if r is not None:
                        sym = True
                        out.append(r)
                    else:
                        out.append(format(pin(v), pin(spec)))
        else:
            out.append(p)
    if not sym:
        return ''.join(out)
    return str_join('', out)


def _mod(left, right):
    return left % deep_pin(right)


# ---- models of C callables ----------------------------------------------------------------------------------------------------

def model(f):
    def d(g):
        CMODELS[f] = g
        return g
    return d


@model(type)
def _m_type(*a):
    if len(a) == 1:
        t = type(a[0])
        if t is SymInt:
            return int
        if t is SymFloat:
            return float
        if t is SymStr:
            return str
        h = getattr(t, '__sym_type__', None)
        return h if h is not None else t
    return type(*a)


@model(int)
def _m_int(x=0, *a, **kw):
    if a or kw:
        if type(x) is SymStr:
            return int_of_str(x, *[pin(v) for v in a], **kw)
        return int(pin(x), *[pin(v) for v in a], **kw)
    if type(x) is SymInt:
        return x
    if type(x) is SymFloat:
        return x.__trunc__()
    if type(x) is SymStr:
        return int_of_str(x)
    return int(x)


def int_of_str(s, base=10):
    """int(text): decimal digits stay symbolic, everything else is pinned"""
    if base != 10:
        return int(pin(s), base)
    t = s.strip()
    es = elems(t)
    sign = 1
    i = 0
    if es and elem_test(es[0], ('in', '+-'), lambda ch: ch in '+-'):
        if elem_test(es[0], ('in', '-'), lambda ch: ch == '-'):
            sign = -1
        i = 1
    digs = es[i:]
    if digs and len(digs) <= 18 and all(elem_test(e, 'adigit', lambda ch: ch in '0123456789') for e in digs):
        val = 0
        term = 0
        vs = frozenset()
        for e in digs:
            if type(e) is SymChar:
                val = val * 10 + (e.val - 48)
                term = term * 10 + (int_var(e.var) - 48)
                vs = vs | {e.var}
            else:
                val = val * 10 + int(e)
                term = term * 10 + int(e)
        if not vs:
            return sign * val
        return SymInt.make(sign * val, sign * term, vs)
    return int(pin(s))


@model(float)
def _m_float(x=0.0):
    if type(x) is SymInt:
        return to_float(x)
    if type(x) is SymFloat or isinstance(x, float):
        return x
    if type(x) is SymStr:
        h = FLOAT_OF_STR[0]
        return h(x) if h is not None else float(pin(x))
    return float(x)


FLOAT_OF_STR = [None]
STR_OF_NUM = [None]
FORMAT_OF_NUM = [None]


@model(str)
def _m_str(x='', *a):
    if type(x) is SymStr:
        return x
    if is_symnum(x):
        h = STR_OF_NUM[0]
        return h(x) if h is not None else str(pin(x))
    if type(x) in (list, dict, tuple):
        return str(deep_pin(x))
    h = getattr(type(x), '__sym_str__', None)
    if h is not None:
        return h(x)
    return str(x, *a)


@model(repr)
def _m_repr(x):
    h = getattr(type(x), '__sym_str__', None)
    return h(x) if h is not None else repr(deep_pin(x))


@model(ord)
def _m_ord(s):
    if type(s) is SymStr and len(s.es) == 1:
        e = s.es[0]
        return SymInt.make(e.val, int_var(e.var), frozenset((e.var,)))
    return ord(s)


@model(chr)
def _m_chr(n):
    if type(n) is SymInt and len(n.vs) == 1:
        (var,) = n.vs
        if var in core.CUR.dom and n.t.get_id() == int_var(var).get_id():
            return SymStr.make((SymChar(var, n.v),))
    return chr(pin(n))


@model(bool)
def _m_bool(x=False):
    return bool(x)


@model(sum)
def _m_sum(it, start=0):
    for x in it:
        start = start + x
    return start


@model(statistics.mean)
@model(statistics.fmean)
def _m_mean(data):
    data = list(data)
    if len(data) == 0:
        raise statistics.StatisticsError('mean requires at least one data point')
    if not all(isinstance(x, (int, float)) and grid(x) is not None for x in data):
        return statistics.mean(deep_pin(data))
    return _m_sum(data) / len(data)


@model(range)
def _m_range(*a):
    if len(a) == 1 and type(a[0]) is SymInt:
        return _lazy_range(0, a[0])
    if any(type(x) is SymFloat for x in a):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if len(a) == 2:
        return _lazy_range(pin(a[0]), a[1])
    return range(*[pin(x) for x in a])


def _lazy_range(lo, hi):
    i = lo
    while i < hi:
        yield i
        i += 1


@model(math.floor)
def _m_floor(x):
    if type(x) is SymFloat:
        return x.__floor__()
    return math.floor(x) if type(x) is not SymInt else x


@model(math.ceil)
def _m_ceil(x):
    if type(x) is SymFloat:
        return x.__ceil__()
    return math.ceil(x) if type(x) is not SymInt else x


@model(math.trunc)
def _m_trunc(x):
    return x.__trunc__()


@model(math.isfinite)
def _m_isfinite(x):
    return True if is_symnum(x) else math.isfinite(x)


@model(math.isnan)
def _m_isnan(x):
    return False if is_symnum(x) else math.isnan(x)


@model(math.isinf)
def _m_isinf(x):
    return False if is_symnum(x) else math.isinf(x)


def _reduce_re(name):
    def m(pattern, string, *a, **kw):
        pattern = pin(pattern)
        p = pattern if isinstance(pattern, re.Pattern) else re.compile(pattern, kw.pop('flags', 0))
        return _cm(p, name, string, *a, **kw)
    return m


for _n in ('match', 'search', 'fullmatch', 'split', 'findall', 'finditer'):
    CMODELS[getattr(re, _n)] = _reduce_re(_n)


@model(re.sub)
def _m_resub(pattern, repl, string, count=0, flags=0):
    pattern = pin(pattern)
    p = pattern if isinstance(pattern, re.Pattern) else re.compile(pattern, flags)
    return _cm(p, 'sub', repl, string, count)


_ESC = {chr(i): '\\' + chr(i) for i in b'()[]{}?*+-|^$\\.&~# \t\n\r\v\f'}


@model(re.escape)
def _m_escape(s):
    if type(s) is not SymStr:
        return re.escape(s)
    out = []
    for e in s.es:
        if elem_test(e, 'resc', lambda ch: ch in _ESC):
            out.append('\\')
        out.append(e)
    return SymStr.make(tuple(out))


HOOKS = {'__sx_c__': _c, '__sx_cm__': _cm, '__sx_gi__': _gi, '__sx_k__': _k, '__sx_in__': _in, '__sx_f__': _f, '__sx_mod__': _mod, '__sx_fn__': _fn, '__symx__': True}


# ---- loading ---------------------------------------------------------------------------------------------------------------------

class Loader(importlib.abc.Loader):
    def __init__(self, name, path):
        self.name = name
        self.path = path

    def create_module(self, spec):
        return None

    def get_resource_reader(self, name):
        from importlib.resources.readers import FileReader
        return FileReader(self)

    def get_data(self, path):
        with open(path, 'rb') as fh:
            return fh.read()

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as fh:
            source = fh.read()
        module.__file__ = self.path
        module.__dict__.update(HOOKS)
        exec(instrument(source, self.name, self.path), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """Loads the named packages/modules instrumented"""
    def __init__(self, roots, extra):
        self.roots = roots      # package name -> directory
        self.extra = extra      # module name -> file

    def find_spec(self, fullname, path=None, target=None):
        if fullname in self.extra:
            path_ = self.extra[fullname]
            package = os.path.basename(path_) == '__init__.py'
            spec = importlib.util.spec_from_loader(fullname, Loader(fullname, path_), origin=path_, is_package=package)
            if package:
                spec.submodule_search_locations = [os.path.dirname(path_)]
            return spec
        for root, directory in self.roots.items():
            if fullname == root or fullname.startswith(root + '.'):
                rel = fullname.split('.')[1:]
                base = os.path.join(directory, *rel)
                if os.path.isdir(base):
                    init = os.path.join(base, '__init__.py')
                    if not os.path.exists(init):
                        return None
                    spec = importlib.util.spec_from_loader(fullname, Loader(fullname, init), origin=init, is_package=True)
                    spec.submodule_search_locations = [base]
                    return spec
                if os.path.exists(base + '.py'):
                    return importlib.util.spec_from_loader(fullname, Loader(fullname, base + '.py'), origin=base + '.py')
        return None


__symx__ = True
