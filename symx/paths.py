"""Models of os.path and pathlib for symbolic texts (POSIX, lexical operations only)."""

import os
import pathlib
import posixpath

from . import instr
from .vals import SymStr, pin


def _parts(s):
    """(root, parts) as PurePosixPath"""
    root = ''
    if s.startswith('/'):
        root = '//' if s.startswith('//') and not s.startswith('///') else '/'
    return root, [p for p in s.split('/') if not p == '' and not p == '.']


def _text(root, parts):
    out = root
    for i, p in enumerate(parts):
        out = out + ('/' if i else '') + p
    return out if root or parts else '.'


class SymPath:
    """PurePosixPath of a symbolic text"""
    __sym_type__ = type(pathlib.Path('.'))

    def __init__(self, root, parts):
        self.root, self.p = root, parts

    def __sym_str__(self):
        return _text(self.root, self.p)

    def __sym_pin__(self):
        return pathlib.Path(pin(_text(self.root, self.p)))

    def __str__(self):
        return str(self.__sym_pin__())

    def __fspath__(self):
        return str(self.__sym_pin__())

    def as_posix(self):
        return _text(self.root, self.p)

    @property
    def parts(self):
        return ((self.root,) if self.root else ()) + tuple(self.p)

    @property
    def parent(self):
        return SymPath(self.root, self.p[:-1])

    @property
    def name(self):
        return self.p[-1] if self.p else ''

    def is_absolute(self):
        return self.root != ''

    def joinpath(self, *others):
        out = self
        for o in others:
            out = out / o
        return out

    def __truediv__(self, o):
        root, parts = (o.root, o.p) if type(o) is SymPath else _parts(instr.CMODELS[str](o))
        return SymPath(root, parts) if root else SymPath(self.root, self.p + parts)

    def __rtruediv__(self, o):
        return path(o) / self

    def __eq__(self, o):
        return str(self) == str(o)

    def __hash__(self):
        return hash(str(self))

    def __getattr__(self, n):
        return getattr(self.__sym_pin__(), n)


def _syms(args):
    return any(type(a) in (SymStr, SymPath) for a in args)


def path(*args):
    if not _syms(args):
        return pathlib.Path(*args)
    out = SymPath('', [])
    for a in args:
        out = out / a
    return out


def _s(x):
    return x.as_posix() if type(x) is SymPath else x


def join(a, *rest):
    out = _s(a)
    for b in rest:
        b = _s(b)
        if b.startswith('/'):
            out = b
        elif out == '' or out.endswith('/'):
            out = out + b
        else:
            out = out + '/' + b
    return out


def split(p):
    p = _s(p)
    i = p.rfind('/') + 1
    head, tail = p[:i], p[i:]
    if not head == '':
        j = len(head)
        while j > 0 and head[j - 1] == '/':
            j -= 1
        if j:
            head = head[:j]
    return head, tail


def dirname(p):
    return split(p)[0]


def basename(p):
    return split(p)[1]


def isabs(p):
    return _s(p).startswith('/')


def normpath(p):
    p = _s(p)
    if p == '':
        return '.'
    root, parts = _parts(p)
    out = []
    for x in parts:
        if x == '..' and (out and not out[-1] == '..' or root):
            if out:
                out.pop()
        else:
            out.append(x)
    return _text(root, out)


def install():
    def guard(f, real):
        return lambda *a: f(*a) if _syms(a) else real(*a)
    for cls in (pathlib.Path, pathlib.PurePath, pathlib.PosixPath, pathlib.PurePosixPath):
        instr.CMODELS[cls] = (lambda c: lambda *a: path(*a) if _syms(a) else c(*a))(cls)
    for name in ('join', 'split', 'dirname', 'basename', 'isabs', 'normpath'):
        instr.CMODELS[getattr(posixpath, name)] = guard(globals()[name], getattr(posixpath, name))
    instr.CMODELS[os.fspath] = lambda x: x.as_posix() if type(x) is SymPath else os.fspath(x)


__symx__ = True
