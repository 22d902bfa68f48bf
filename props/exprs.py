"""Reference expression grammar: a scanner and precedence-climbing parser over characters (works on symbolic text)."""

LEVELS = {'||': 1, '&&': 2, '==': 3, '!=': 3, '<=': 4, '<': 4, '>=': 4, '>': 4, '+': 5, '-': 5, '*': 6, '/': 6, '%': 6, '**': 7}
WS = ' \t\r\n\x0b\x0c'
LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'
DIGITS = '0123456789'


class Reject(Exception):
    pass


class DontCare(Exception):
    """The text is in a corner the property does not fix"""


class RefParser:
    def __init__(self, text):
        self.t = text
        self.i = 0
        self.n = len(text)

    def ws(self):
        while self.i < self.n and self.t[self.i] in WS:
            self.i += 1

    def at(self, s, i=None):
        i = self.i if i is None else i
        return self.t[i:i + len(s)] == s

    def binop(self):
        """Operator at the cursor (longest first) or None"""
        for op in ('**', '<=', '>=', '==', '!=', '&&', '||', '*', '/', '%', '+', '-', '<', '>'):
            if self.at(op):
                return op
        return None

    def full(self):
        e = self.expr(0)
        self.ws()
        if self.i < self.n:
            raise Reject()
        return e

    def expr(self, level):
        left = self.unary()
        while True:
            mark = self.i
            self.ws()
            op = self.binop()
            if op is None or LEVELS[op] <= level:
                self.i = mark
                return left
            self.i += len(op)
            right = self.expr(LEVELS[op])
            left = {'binary': {'op': op, 'left': left, 'right': right}}

    def number(self):
        """Length of the number literal at the cursor, 0 if none"""
        j = self.i
        if j < self.n and self.t[j] in '+-':
            j += 1
        k = j
        while k < self.n and self.t[k] in DIGITS:
            k += 1
        if k == j:
            return 0
        if k < self.n and self.t[k] == '.':
            k += 1
            while k < self.n and self.t[k] in DIGITS:
                k += 1
        if k + 2 < self.n and self.t[k] == 'e' and self.t[k + 1] in '+-' and self.t[k + 2] in DIGITS:
            k += 2
            while k < self.n and self.t[k] in DIGITS:
                k += 1
        return k - self.i

    def quoted(self, q):
        self.i += 1
        out = ''
        esc = False
        while self.i < self.n:
            c = self.t[self.i]
            if c == q:
                self.i += 1
                return {'string': out}
            if c == '\\' and self.i + 1 < self.n:
                d = self.t[self.i + 1]
                if d == q or d == '\\':
                    esc = esc or d == q
                    out = out + d
                    self.i += 2
                    continue
            out = out + c
            self.i += 1
        if esc:
            raise DontCare()
        raise Reject()

    def unary(self):
        self.ws()
        if self.i >= self.n:
            raise Reject()
        c = self.t[self.i]
        if c == '(':
            self.i += 1
            e = self.expr(0)
            self.ws()
            if not self.at(')'):
                raise Reject()
            self.i += 1
            return {'group': e}
        if c in '!-':
            self.i += 1
            return {'unary': {'op': '!' if c == '!' else '-', 'expr': self.unary()}}
        if c in LETTERS:
            k = self.i
            while k < self.n and self.t[k] in LETTERS + DIGITS:
                k += 1
            name = self.t[self.i:k]
            self.i = k
            self.ws()
            if len(name) >= 2 and self.at('('):
                self.i += 1
                return {'function': {'name': name, 'args': self.args()}}
            self.i = k
            return {'variable': name}
        n = self.number()
        if n:
            text = self.t[self.i:self.i + n]
            self.i += n
            return {'number': float(text)}
        if c in '\'"':
            return self.quoted('"' if c == '"' else "'")
        if c == '[':
            return self.bracket()
        raise Reject()

    def args(self):
        out = []
        self.ws()
        if self.at(')'):
            self.i += 1
            return out
        while True:
            out.append(self.expr(0))
            self.ws()
            if self.at(')'):
                self.i += 1
                return out
            if not self.at(','):
                raise Reject()
            self.i += 1

    def bracket(self):
        self.i += 1
        out = ''
        esc = False
        if self.i < self.n and self.t[self.i] in WS:
            raise DontCare()        # blanks at the edges of a bracketed name
        while self.i < self.n:
            c = self.t[self.i]
            if c == ']':
                if len(out) == 0:
                    raise Reject()
                if self.t[self.i - 1] in WS:
                    raise DontCare()
                self.i += 1
                return {'variable': out}
            if c == '\\' and self.i + 1 < self.n:
                d = self.t[self.i + 1]
                if d == '\\':
                    raise DontCare()
                if d == ']':
                    esc = True
                    out = out + d
                    self.i += 2
                    continue
            out = out + c
            self.i += 1
        if esc:
            raise DontCare()
        raise Reject()


def ref_parse(text):
    """Tree, or None when the text is no expression"""
    try:
        return RefParser(text).full()
    except Reject:
        return None


def tree_eq(a, b):
    """Model equality (numbers by value)"""
    if isinstance(a, dict):
        return isinstance(b, dict) and len(a) == len(b) and all(k in b and tree_eq(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(tree_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    return type(a) is type(b) and a == b if isinstance(a, bool) or isinstance(b, bool) else a == b


def unparse(e):
    """Fully parenthesised text (for messages)"""
    if e is None:
        return 'no expression'
    if 'binary' in e:
        return '(' + unparse(e['binary']['left']) + ' ' + e['binary']['op'] + ' ' + unparse(e['binary']['right']) + ')'
    if 'unary' in e:
        return e['unary']['op'] + unparse(e['unary']['expr'])
    if 'group' in e:
        return '{' + unparse(e['group']) + '}'
    if 'function' in e:
        return e['function']['name'] + '(' + ', '.join(unparse(x) for x in e['function'].get('args', [])) + ')'
    if 'string' in e:
        return repr(e['string'])
    if 'number' in e:
        return repr(e['number'])
    return '[' + str(e.get('variable')) + ']'
