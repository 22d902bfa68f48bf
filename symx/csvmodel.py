"""Pure-Python stand-in for the C part of the csv module, and io.StringIO, over symbolic texts."""

import _csv
import io
import types

from . import instr
from .vals import SymStr, pin

_START_RECORD, _START_FIELD, _ESCAPED, _IN_FIELD, _IN_QUOTED, _ESCAPE_IN_QUOTED, _QUOTE_IN_QUOTED, _EAT_CRNL = range(8)
_EOL = object()


class reader:
    """csv.reader: the state machine of CPython's Modules/_csv.c"""

    def __init__(self, iterable, dialect='excel', **fmt):
        self.dialect = _csv.reader([], dialect, **fmt).dialect
        self.input = iter(iterable)
        self.line_num = 0

    def __iter__(self):
        return self

    def _save(self):
        if self.numeric:
            self.field = float(pin(self.field))
        self.fields.append(self.field)
        self.field = ''
        self.numeric = False

    def _char(self, c):
        d = self.dialect
        s = self.state
        eol = c is _EOL
        if s == _START_RECORD:
            if eol:
                return
            if c == '\n' or c == '\r':
                self.state = _EAT_CRNL
                return
            s = self.state = _START_FIELD
        if s == _START_FIELD:
            if eol or c == '\n' or c == '\r':
                self._save()
                self.state = _START_RECORD if eol else _EAT_CRNL
            elif d.quoting != 3 and d.quotechar is not None and c == d.quotechar:
                self.state = _IN_QUOTED
            elif d.escapechar is not None and c == d.escapechar:
                self.state = _ESCAPED
            elif d.skipinitialspace and c == ' ':
                pass
            elif c == d.delimiter:
                self._save()
            else:
                if d.quoting == 2:
                    self.numeric = True
                self.field = self.field + c
                self.state = _IN_FIELD
        elif s == _ESCAPED:
            if not eol:
                self.field = self.field + c
            self.state = _IN_FIELD
        elif s == _IN_FIELD:
            if eol or c == '\n' or c == '\r':
                self._save()
                self.state = _START_RECORD if eol else _EAT_CRNL
            elif d.escapechar is not None and c == d.escapechar:
                self.state = _ESCAPED
            elif c == d.delimiter:
                self._save()
                self.state = _START_FIELD
            else:
                self.field = self.field + c
        elif s == _IN_QUOTED:
            if eol:
                pass
            elif d.escapechar is not None and c == d.escapechar:
                self.state = _ESCAPE_IN_QUOTED
            elif d.quoting != 3 and c == d.quotechar:
                self.state = _QUOTE_IN_QUOTED if d.doublequote else _IN_FIELD
            else:
                self.field = self.field + c
        elif s == _ESCAPE_IN_QUOTED:
            if not eol:
                self.field = self.field + c
            self.state = _IN_QUOTED
        elif s == _QUOTE_IN_QUOTED:
            if not eol and d.quoting != 3 and c == d.quotechar:
                self.field = self.field + c
                self.state = _IN_QUOTED
            elif not eol and c == d.delimiter:
                self._save()
                self.state = _START_FIELD
            elif eol or c == '\n' or c == '\r':
                self._save()
                self.state = _START_RECORD if eol else _EAT_CRNL
            elif not d.strict:
                self.field = self.field + c
                self.state = _IN_FIELD
            else:
                raise _csv.Error(f"'{d.delimiter}' expected after '{d.quotechar}'")
        elif eol:
            self.state = _START_RECORD
        elif not (c == '\n' or c == '\r'):
            raise _csv.Error("new-line character seen in unquoted field - do you need to open the file with newline=''?")

    def __next__(self):
        self.fields, self.field, self.numeric, self.state = [], '', False, _START_RECORD
        while True:
            try:
                line = next(self.input)
            except StopIteration:
                if len(self.field) != 0 or self.state == _IN_QUOTED:
                    if self.dialect.strict:
                        raise _csv.Error('unexpected end of data') from None
                    self._save()
                    return self.fields
                raise
            if not isinstance(line, str):
                raise _csv.Error(f'iterator should return strings, not {type(line).__name__} (the file should be opened in text mode)')
            self.line_num += 1
            for i in range(len(line)):
                self._char(line[i])
            self._char(_EOL)
            if self.state == _START_RECORD:
                return self.fields


def standin():
    m = types.ModuleType('_csv')
    m.__dict__.update({k: v for k, v in vars(_csv).items() if k not in ('__name__', '__loader__', '__spec__', '__package__')})
    m.reader = reader
    return m


class SymStringIO:
    """io.StringIO for reading a symbolic text"""

    def __init__(self, text, newline):
        if newline is None:
            text = text.replace('\r\n', '\n').replace('\r', '\n')
            newline = '\n'
        self.text, self.newline, self.pos = text, newline, 0

    def readline(self):
        t, i, n = self.text, self.pos, len(self.text)
        j = i
        while j < n:
            if self.newline == '':
                if t[j] == '\n':
                    j += 1
                    break
                if t[j] == '\r':
                    j += 2 if j + 1 < n and t[j + 1] == '\n' else 1
                    break
            elif t[j:j + len(self.newline)] == self.newline:
                j += len(self.newline)
                break
            j += 1
        self.pos = j
        return t[i:j]

    def read(self):
        i, self.pos = self.pos, len(self.text)
        return self.text[i:]

    def readlines(self):
        return list(self)

    def getvalue(self):
        return self.text

    def __iter__(self):
        return self

    def __next__(self):
        if self.pos >= len(self.text):
            raise StopIteration
        return self.readline()

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass

    def close(self):
        pass


def install():
    def stringio(initial_value='', newline='\n'):
        return SymStringIO(initial_value, newline) if type(initial_value) is SymStr else io.StringIO(pin(initial_value), pin(newline))
    instr.CMODELS[io.StringIO] = stringio


__symx__ = True
