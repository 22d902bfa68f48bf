"""C17: includes resolve relative to the including file and run in global scope"""

import contextlib
import functools
import io
import os
import shutil
import tempfile

from symx.harness import Harness
from props.common import show

BOUNDS = ('references and bases: 9 x 7 fixed heads with <= 3 (quick) / 4 (thorough) symbolic characters each over "a/.:"; include trees of <= 5 / 8 files of <= 3 statements (depth <= 4, fan-out <= 3, loops, functions, '
          'conditional includes, missing, failing and broken files) over 5 base locations and 4 system prefixes; the CLI on real files in a scratch directory')
ASSUMPTIONS = ['two locations are the same when they differ only in ".", "x/.." and repeated or trailing slashes (lexical; no symbolic links)',
               'a scheme is one or more lower-case letters and a colon; URL bases have a path; a system prefix ends with "/"',
               'systemFetch is checked at the top level of files only (which file a function\'s systemFetch is relative to is not stated)']


def scheme_end(t):
    """Index after the colon of an absolute URL's scheme, or 0"""
    i = 0
    while i < len(t) and 'a' <= t[i] <= 'z':
        i += 1
    return i + 1 if 0 < i < len(t) and t[i] == ':' else 0


def resolve(base, ref):
    """The location a reference in the file at base names"""
    if scheme_end(ref) or ref[:1] == '/':
        return ref
    i = len(base)
    while i > 0 and base[i - 1] != '/':
        i -= 1
    return base[:i] + ref


def canon(t):
    """Location up to lexical normalisation: (kind, segments)"""
    k = scheme_end(t)
    head = ''
    if k:
        head = t[:k]
        t = t[k:]
        if t[:2] == '//':
            j = 2
            while j < len(t) and t[j] != '/':
                j += 1
            head = head + t[:j]
            t = t[j:]
        root = True
    else:
        root = t[:1] == '/'
    out = []
    seg = ''
    for i in range(len(t) + 1):
        if i < len(t) and t[i] != '/':
            seg = seg + t[i]
            continue
        if seg == '' or seg == '.':
            pass
        elif seg == '..' and (root or (out and out[-1] != '..')):
            if out:
                out.pop()
        else:
            out.append(seg)
        seg = ''
    return (head, root, out)


def same_location(a, b):
    (h, r, s), (k, q, t) = canon(a), canon(b)
    return h == k and r == q and len(s) == len(t) and all(x == y for x, y in zip(s, t))


BASES = ('', '/', './', '../', 'd/', '/d/', 'http://h/', 'http://h/d/', ':bare-include:/')
REFS = ('', '/', '../', './', 'sub/', 'http://k/', '/abs/')


def resolution(ctx, bs):
    """One include (plain, system, without a base), then one after it"""
    how = ctx.pick('how', ('plain', 'system', 'none', 'noprefix', 'second', 'fetch'))
    base = ctx.pick('base', BASES)
    ref = ctx.pick('ref', REFS) + ctx.str('u', ctx.choice('nu', ctx.params['n'] + 1), 'a/.:')
    ctx.assume(len(ref) > 0)
    if how == 'system':
        ctx.assume(base[-1:] == '/' or base == '')
    else:
        base = base + ctx.str('b', ctx.choice('nb', ctx.params['n']), 'a/.:')
    seen = []

    def fetch(request):
        seen.append(request['url'])
        return '' if len(seen) == 1 else None
    options = {'globals': {}, 'fetchFn': fetch}
    inc = {'url': ref}
    if how == 'system':
        inc['system'] = True
        options['systemPrefix'] = base
        options['urlFn'] = functools.partial(bs.options.url_file_relative, 'zz/q.bare')
    elif how == 'none':
        base = ''
    else:
        options['urlFn'] = functools.partial(bs.options.url_file_relative, base)
    if how == 'noprefix':
        inc['system'] = True
    statements = [{'include': {'includes': [inc]}}]
    if how == 'second':
        options['systemPrefix'] = 'sys/'
        statements = [{'include': {'includes': [{'url': 'x/y.bare', 'system': True}, inc]}}]
    if how == 'fetch':
        statements = [{'return': {'expr': {'function': {'name': 'systemFetch', 'args': [{'string': ref}]}}}}]
    err = None
    try:
        bs.runtime.execute_script({'statements': statements}, options)
    except bs.runtime.BareScriptRuntimeError as e:
        err = str(e)
    ctx.reach('end')
    want = ref if how == 'none' else resolve(base, ref)
    ctx.check((err is not None) == (how == 'second') and len(seen) == (2 if how == 'second' else 1), lambda: f'{how} {show(ref)} in {show(base)} fetches {show(seen)}, {show(err)}')
    h, root, segs = canon(want)
    if h == '' and not root and segs and scheme_end(segs[0]):
        return      # a relative file name that looks like a URL without its "./"
    got = seen[-1]
    ctx.check(same_location(got, want), lambda: f'{how} {show(ref)} in {show(base)} is fetched from {show(got)}, not {show(want)}')
    if err is not None:
        ctx.check(got in err, lambda: f'{show(err)} does not name {show(got)}')


def syntax(ctx, bs):
    """The location as it is written in the statement"""
    system = ctx.flag('system')
    n = ctx.choice('n', ctx.params['n']) + 1
    cs = [ctx.str(f'c{i}', 1, "a/. '<#") for i in range(n)]
    url = ''
    src = ''
    for c in cs:
        url = url + c
        src = src + ('\\' if not system and c == "'" else '') + c
    text = ctx.pick('pad', ('', '  ')) + 'include ' + ctx.pick('gap', ('', ' ')) + ('<' if system else "'") + src + ('>' if system else "'") + ctx.pick('tail', ('', ' '))
    two = ctx.pick('two', ('', 'next', 'before', 'comment'))
    other = "include 'other.bare'"
    if two == 'next':
        text = text + '\n' + other
    elif two == 'comment':
        text = text + '\n# comment\n\n' + other
    elif two == 'before':
        text = other + '\n' + text
    seen = []

    def fetch(request):
        seen.append(request['url'])
        return ''
    script = bs.parser.parse_script(text)
    bs.model.validate_script(script)
    bs.runtime.execute_script(script, {'globals': {}, 'fetchFn': fetch})
    ctx.reach('end')
    want = [url] if two == '' else ['other.bare', url] if two == 'before' else [url, 'other.bare']
    ctx.check(len(seen) == len(want) and all(a == b for a, b in zip(seen, want)), lambda: f'{show(text)} fetches {show(seen)}, not {show(want)}')


# Include trees

class Stop(Exception):
    """The run ends with an error: ('fetch' or 'parse', location)"""


class Tree:
    """Files by location, made when they are first fetched; the run of the reference"""

    def __init__(self, ctx, kinds, files, refs, fuel=14):
        self.ctx = ctx
        self.kinds = kinds
        self.left = files
        self.bad = ctx.choice('bad', 2 * files)
        self.refs = refs
        self.fuel = fuel
        self.files = {}
        self.marks = 0
        self.names = []
        self.trace = []
        self.globals = {}
        self.fns = {}
        self.nc = 0
        self.prefix = None

    def mark(self):
        self.marks += 1
        return f'L{self.marks}'

    def body(self, n, depth, fn=False):
        return [self.stmt(depth, fn) for _ in range(n)]

    def stmt(self, depth, fn):
        kinds = [k for k in self.kinds if (depth == 0 or k not in ('if', 'loop', 'def')) and not (fn and k in ('def', 'fetch')) and (self.names or k not in ('call', 'hcall', 'pcall'))]
        k = self.ctx.pick('kind', kinds)
        if k == 'log':
            return (k, self.mark())
        if k == 'inc':
            return (k, [self.ctx.pick('ref', self.refs) for _ in range(self.ctx.choice('fan', 2) + 1)])
        if k in ('set', 'show'):
            return (k, self.ctx.pick('v', ('va', 'vb')), self.mark())
        if k == 'return':
            return (k,)
        if k == 'fetch':
            return (k, self.ctx.pick('data', ('d.txt', 'e/d.txt', '/d.txt')))
        if k == 'if':
            return (k, self.body(1, depth + 1, fn))
        if k == 'loop':
            return (k, self.ctx.choice('times', 3), self.body(1, depth + 1, fn))
        if k == 'def':
            name = f'fn{len(self.names) + 1}'
            b = self.body(self.ctx.choice('nf', 2) + 1, depth + 1, True)
            self.names.append(name)
            return (k, name, b)
        return (k, self.ctx.pick('fn', self.names))

    def lines(self, body, pad=''):
        out = []
        for s in body:
            k = s[0]
            if k == 'log':
                out.append(f"{pad}systemLog('{s[1]}')")
            elif k == 'inc':
                out.extend(pad + ('include <' + r[1:] + '>' if r[0] == '<' else "include '" + r + "'") for r in s[1])
            elif k == 'set':
                out.append(f"{pad}{s[1]} = '{s[2]}'")
            elif k == 'show':
                out.append(f"{pad}systemLog('{s[2]}' + {s[1]})")
            elif k == 'return':
                out.append(pad + 'return')
            elif k == 'fetch':
                out.append(f"{pad}systemFetch('{s[1]}')")
            elif k == 'if':
                out.extend([pad + 'if cond():'] + self.lines(s[1], pad + '  ') + [pad + 'endif'])
            elif k == 'loop':
                out.extend([f'{pad}for it in arrayNewSize({s[1]}):'] + self.lines(s[2], pad + '  ') + [pad + 'endfor'])
            elif k == 'def':
                out.extend([f'{pad}function {s[1]}():'] + self.lines(s[2], pad + '  ') + [pad + 'endfunction'])
            elif k == 'call':
                out.append(f'{pad}{s[1]}()')
            elif k == 'hcall':
                out.append(f'{pad}hostCall({s[1]})')
            else:
                out.extend([f'{pad}part = systemPartial({s[1]}, 1)', f'{pad}part()'])
        return out

    def text_of(self, f):
        if isinstance(f, str):
            return {'broken': "systemLog('never')\nva = (1\n", 'open': "systemLog('never')\nif va:\n"}[f]
        return '\n'.join(self.lines(f))

    def file(self, loc):
        key = repr(canon(loc))
        if key not in self.files:
            if self.left <= 0:
                self.files[key] = 'missing'
            else:
                self.left -= 1
                bad = self.ctx.pick('file', ('broken', 'open', 'missing', 'throws')) if self.left == self.bad else None
                self.files[key] = bad or self.body(self.ctx.choice('len', 3) + 1, 0)
        return self.files[key]

    # The reference run
    def cond(self, i):
        while len(self.outcomes) <= i:
            self.outcomes.append(self.ctx.int(f'q{len(self.outcomes)}', 0, 1))
        return self.outcomes[i]
    outcomes = ()

    def run(self, body, base, loc):
        """True when a return ended the body"""
        for s in body:
            self.fuel -= 1
            self.ctx.assume(self.fuel >= 0)
            k = s[0]
            if k == 'log':
                self.trace.append(('log', s[1]))
            elif k == 'set':
                (self.globals if loc is None else loc)[s[1]] = s[2]
            elif k == 'show':
                v = loc[s[1]] if loc is not None and s[1] in loc else self.globals.get(s[1])
                self.trace.append(('log', s[2] + ('null' if v is None else v)))
            elif k == 'return':
                return True
            elif k == 'fetch':
                self.trace.append(('fetch', repr(canon(self.locate(base, s[1])))))
            elif k == 'if':
                self.nc += 1
                if self.cond(self.nc - 1) == 1 and self.run(s[1], base, loc):
                    return True
            elif k == 'loop':
                for _ in range(s[1]):
                    if self.run(s[2], base, loc):
                        return True
            elif k == 'def':
                self.fns[s[1]] = (s[2], base)
            elif k in ('call', 'hcall', 'pcall'):
                self.ctx.assume(s[1] in self.fns)
                f, b = self.fns[s[1]]
                self.run(f, b, {})
            elif k == 'inc':
                for r in s[1]:
                    self.include(r, base)
        return False

    def locate(self, base, ref, system=False):
        if system and self.prefix is not None:
            return resolve(self.prefix, ref)
        return ref if base is None else resolve(base, ref)

    def include(self, r, base):
        loc = self.locate(base, r.lstrip('<'), r[0] == '<')
        self.trace.append(('fetch', repr(canon(loc))))
        f = self.file(loc)
        if f in ('missing', 'throws'):
            raise Stop('fetch', loc)
        if f in ('broken', 'open'):
            raise Stop('parse', loc)
        self.run(f, loc, None)


def real_run(ctx, bs, t, main, base):
    """Trace, error and globals of the real run"""
    trace = []
    urls = []
    pos = [0]

    def fetch(request):
        key = repr(canon(request['url']))
        trace.append(('fetch', key))
        urls.append(request['url'])
        f = t.files.get(key, 'missing')
        if f == 'missing':
            return None
        if f == 'throws':
            raise OSError('no such file')
        return t.text_of(f)

    def cond(args, options):
        pos[0] += 1
        return t.cond(pos[0] - 1)

    def host_call(args, options):
        return args[0]([], options)

    def log(text):
        if text[:10] != 'BareScript':
            trace.append(('log', text))
    g = {'cond': cond, 'hostCall': host_call}
    options = {'globals': g, 'fetchFn': fetch, 'logFn': log, 'debug': ctx.flag('debug')}
    if base is not None:
        options['urlFn'] = functools.partial(bs.options.url_file_relative, base)
    if t.prefix is not None:
        options['systemPrefix'] = t.prefix
    err = None
    try:
        bs.runtime.execute_script(bs.parser.parse_script('\n'.join(t.lines(main))), options)
    except bs.runtime.BareScriptRuntimeError as e:
        err = ('fetch', str(e))
    except bs.parser.BareScriptParserError as e:
        err = ('parse', str(e))
    return trace, err, {k: g[k] for k in ('va', 'vb') if k in g}, urls


PLAIN = ('a.bare', 'sub/b.bare', '../c.bare')
MIXED = ('a.bare', 'sub/b.bare', '../c.bare', '/abs/d.bare', 'http://k/u/e.bare', '<s.bare', '<sys/t.bare', '</abs/d.bare', 'sub/../../a.bare')


def tree_check(ctx, bs, kinds, refs, bases, prefixes, start=None):
    t = Tree(ctx, kinds, ctx.params['files'], refs)
    t.outcomes = []
    base = ctx.pick('base', bases)
    t.prefix = ctx.pick('prefix', prefixes)
    main = start(t) if start is not None else t.body(ctx.choice('before', 2), 0) + [('inc', [ctx.pick('ref', refs)])] + t.body(ctx.choice('after', 3), 0)
    want = None
    try:
        t.run(main, base, None)
    except Stop as e:
        want = e.args
    trace, err, g, urls = real_run(ctx, bs, t, main, base)
    ctx.reach('end' if want is None else want[0])

    def text():
        return '\n'.join(t.lines(main)) + ''.join(f'\n--- {k}\n{f if isinstance(f, str) else t.text_of(f)}' for k, f in t.files.items()) + f'\n(base {base}, prefix {t.prefix})'
    ctx.check(trace == t.trace, lambda: f'{trace}, not {t.trace}:\n{text()}')
    if want is None:
        ctx.check(err is None, lambda: f'{err}:\n{text()}')
    else:
        ctx.check(err is not None and err[0] == want[0] and urls[-1] in err[1], lambda: f'{err}, not an error of kind {want}:\n{text()}')
    ctx.check(g == {k: v for k, v in t.globals.items()}, lambda: f'globals {g}, not {t.globals}:\n{text()}')


def tree(ctx, bs):
    """Trees of files over mixed bases"""
    tree_check(ctx, bs, ('inc', 'log', 'return', 'set', 'fetch'), MIXED, ('main.bare', 'proj/main.bare', '/r/x/main.bare', 'http://h/m/main.bare', None), (None, 'sys/', ':bare-include:/', 'http://s/inc/', ''))


def scopes(ctx, bs):
    """Includes in functions, loops and conditionals"""
    tree_check(ctx, bs, ('inc', 'log', 'def', 'call', 'hcall', 'pcall', 'if', 'loop', 'set', 'show', 'return', 'fetch'), PLAIN + ('<s.bare',), ('proj/main.bare', 'http://h/m/main.bare'), ('sys/',))


def infunction(ctx, bs):
    """A function with local variables includes files that use variables of the same names"""
    def some(t, kinds, n):
        out = []
        for _ in range(n):
            k = ctx.pick('kind', kinds)
            out.append((k, ctx.pick('v', ('va', 'vb')), t.mark()) if k in ('set', 'show') else ('return',) if k == 'return' else ('call', 'fn2') if k == 'call' else (k, t.mark()))
        return out

    def start(t):
        inc = ('inc', [ctx.pick('ref', PLAIN) for _ in range(ctx.choice('fan', 2) + 1)])
        wrap = ctx.choice('wrap', 3)
        body = some(t, ('set', 'show'), ctx.choice('nb', 2) + 1) + [inc if wrap == 0 else ('if', [inc]) if wrap == 1 else ('loop', ctx.choice('times', 3), [inc])] + some(t, ('show', 'set', 'return'), ctx.choice('na', 3))
        out = some(t, ('set',), ctx.choice('ng', 2)) + [('def', 'fn1', body)]
        t.names = ['fn1']
        call = ctx.pick('call', ('call', 'hcall', 'pcall', 'nested'))
        if call == 'nested':
            out += [('def', 'fn2', some(t, ('set',), 1) + [('call', 'fn1')] + some(t, ('show',), 1)), ('call', 'fn2')]
        else:
            out += [(call, 'fn1')]
        t.names = []        # the included files call nothing
        return out + [('show', 'va', t.mark()), ('show', 'vb', t.mark())]
    tree_check(ctx, bs, ('set', 'show', 'inc', 'return', 'def'), PLAIN, ('proj/main.bare', None), (None,), start)


class Scratch:
    """A directory for the files of one run; the working directory while it lasts"""

    def __enter__(self):
        self.cwd = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix='c17-')
        os.chdir(self.dir)
        return self.dir

    def __exit__(self, *exc):
        os.chdir(self.cwd)
        shutil.rmtree(self.dir)


def cli(ctx, bs):
    """The command line on real files"""
    with Scratch() as root:
        os.makedirs('proj/sub')
        os.mkdir('lib')

        def put(path, text):
            with open(os.path.join(root, path), 'w', encoding='utf-8') as f:
                f.write(text)
        style = ctx.pick('style', ('relative', 'absolute', 'code', 'file+code', 'code+file'))
        where = ctx.pick('where', ('', 'proj/'))
        ref = ctx.pick('ref', ('a.bare', 'sub/a.bare', '../lib/a.bare', 'absolute', 'lib/a.bare', 'proj/a.bare'))
        nested = ctx.pick('nested', (None, 'b.bare', '../lib/b.bare', '<diff.bare>', '<args.bare>', '<none.bare>', '<unittest.bare>'))
        after = ctx.pick('after', (None, 'z.bare', '<unittestMock.bare>'))
        for d in ('', 'proj/', 'proj/sub/', 'lib/'):
            n = '' if nested is None else ('include ' + nested if nested[0] == '<' else f"include '{nested}'")
            put(d + 'a.bare', f"systemLog('{d}a in')\n{n}\nsystemLog('{d}a out')\n")
            put(d + 'b.bare', f"systemLog('{d}b')\nbb = '{d}'\n")
            put(d + 'z.bare', f"systemLog('{d}z')\nreturn 7\n")
        real_ref = os.path.join(root, 'lib/a.bare') if ref == 'absolute' else ref
        text = f"include '{real_ref}'\n"
        if after is not None:
            text += ('include ' + after if after[0] == '<' else f"include '{after}'") + '\n'
        text += "systemLog('end ' + bb + systemType(diffLines) + systemType(argsParse) + systemType(unittestMockAll))\n"
        put(where + 'main.bare', text)
        name = {'absolute': os.path.join(root, where + 'main.bare')}.get(style, where + 'main.bare')
        args = {'relative': [name], 'absolute': [name], 'code': ['-c', text], 'file+code': [name, '-c', "systemLog('more ' + bb)"], 'code+file': ['-c', 'systemLog(1)', name]}[style]
        # expected
        out = []
        status = 0
        base = '' if style == 'code' else where
        g = {'bb': 'null', 'f': set()}
        system = {'diff.bare': {'d'}, 'args.bare': {'a'}, 'unittest.bare': {'d'}, 'unittestMock.bare': {'m'}}

        def include(r, b):
            if r[0] == '<':
                if r[1:-1] not in system:
                    return 'Include of ":bare-include:/' + r[1:-1] + '" failed'
                g['f'] |= system[r[1:-1]]
                return None
            path = os.path.normpath(os.path.join(b, r))
            if path.startswith(root):
                path = os.path.relpath(path, root)
            d, leaf = os.path.split(path)
            d = d + '/' if d else ''
            if d not in ('', 'proj/', 'proj/sub/', 'lib/'):
                return 'failed'
            if leaf == 'a.bare':
                out.append(f'{d}a in')
                if nested is not None:
                    e = include(nested, d)
                    if e:
                        return e
                out.append(f'{d}a out')
            elif leaf == 'b.bare':
                out.append(f'{d}b')
                g['bb'] = d
            else:
                out.append(f'{d}z')
            return None
        if style == 'code+file':
            out.append('1')
        e = include(ref if ref != 'absolute' else real_ref, base) or (after is not None and include(after, base)) or None
        if e is None:
            t = [('function' if k in g['f'] else 'null') for k in 'dam']
            out.append('end ' + g['bb'] + ''.join(t))
            if style == 'file+code':
                out.append('more ' + g['bb'])
        else:
            status = 1
        buf = io.StringIO()
        got = None
        with contextlib.redirect_stdout(buf):
            try:
                bs.bare.main(args)
            except SystemExit as x:
                got = x.code
        lines = buf.getvalue().replace(root, 'ROOT').split('\n')
        ctx.reach('end' if e is None else 'failed')
        ctx.check((got or 0) == status, lambda: f'status {got}, not {status}: {args} {lines}')
        if e is None:
            ctx.check(lines == out + [''], lambda: f'{lines}, not {out}: {args}')
        else:
            ctx.check(lines[:len(out)] == out and len(lines) > len(out) and e in '\n'.join(lines[len(out):]), lambda: f'{lines}, not {out} {e}: {args}')


HARNESSES = [
    Harness(resolution, weight=1.5, quick={'n': 3}, thorough={'n': 4}, bounds='9 base heads + < n characters, 7 reference heads + <= n characters over "a/.:"'),
    Harness(syntax, quick={'n': 3}, thorough={'n': 5}, bounds='<= n characters over 7 symbols'),
    Harness(tree, weight=1.5, order='random', quick={'files': 5}, thorough={'files': 8}, bounds='<= files files of <= 3 statements, 9 references'),
    Harness(scopes, weight=1.5, order='random', quick={'files': 4}, thorough={'files': 6}, bounds='<= files files of <= 3 statements, 12 statement kinds'),
    Harness(infunction, order='random', quick={'files': 3}, thorough={'files': 5}, bounds='<= files files of <= 3 statements included by a function with <= 2 local variables'),
    Harness(cli, weight=0.7, order='random', bounds='5 x 2 x 6 x 7 x 3 runs of the command line'),
]
QUICK_SECONDS = 75
