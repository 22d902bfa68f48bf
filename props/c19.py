"""C19: the data functions and CSV"""

from symx.harness import Harness
from symx.zone import use_zone
from props.common import show, call, ref_type, ref_compare, ref_truthy, ref_dt, same, ident, make_dt, make_date, is_num
from props.evalref import num_text, ref_iso, ref_binop

BOUNDS = ('tables of <= 3 (quick) / 5 (thorough) rows and <= 4 fields; key values: null, missing, booleans, numbers on a grid, strings of <= 2 characters over JSON punctuation, datetimes, dates, lists, objects; '
          'expressions from a fixed list over two fields, variables, globals, a script function and a host function; aggregations of <= 3 measures over <= 2 categories; '
          'CSV tables of <= 3 rows x 3 columns with symbolic cells')
ASSUMPTIONS = ['statistics.pstdev is evaluated on pinned values (compared within 1e-9); statistics.mean is modelled as the exact quotient', 'io.StringIO and the C part of the csv module are modelled by a port that is compared with the real ones',
               'a column of strings that are all empty, null or spelled like another type has no own typed form in CSV', 'the rows that match nothing in dataJoin may be present or absent (the documented meaning and the tests of isLeftJoin disagree)',
               'surplus CSV fields, empty measures, equal measure names, mixed measure types are left open']

JSONISH = 'a",]'


def key_value(ctx, name, kinds):
    """A value used as a key"""
    k = ctx.pick(name + '.k', kinds)
    if k == 'null':
        return None
    if k == 'bool':
        return ctx.flag(name + '.b')
    if k == 'int':
        return ctx.int(name + '.i', 0, 2)
    if k == 'num':
        return ctx.num(name + '.f', -1, 2, 2)
    if k == 'str':
        return ctx.str(name + '.s', ctx.choice(name + '.n', 3), JSONISH)
    if k == 'word':
        return ctx.pick(name + '.w', ('1', '1.0', 'true', 'null', '', '[1]', '2024-01-01', '2024-01-01T00:00:00+00:00'))
    if k == 'dt':
        return make_dt(ctx, 2024, 1, ctx.int(name + '.d', 1, 2), 0, 0, 0, ctx.int(name + '.us', 0, 1) * 1000)
    if k == 'date':
        return make_date(ctx, 2024, 1, ctx.int(name + '.d', 1, 2))
    if k == 'list':
        return [ctx.str(name + '.s', ctx.choice(name + '.n', 3), JSONISH)] + ([ctx.int(name + '.i', 0, 1)] if ctx.flag(name + '.2') else [])
    if k == 'obj':
        ks = ctx.pick(name + '.key', (('a',), ('b',), ('a', 'b'), ('b', 'a')))
        v = {k: ctx.int(name + '.' + k, 0, 1) for k in ks} if len(ks) > 1 else {ks[0]: ctx.str(name + '.s', ctx.choice(name + '.n', 2), JSONISH)}
        return v
    raise ValueError(k)


KEYS = ('null', 'bool', 'num', 'str', 'word', 'dt', 'date', 'list', 'obj')
PLAIN = ('null', 'num', 'str')


def table(ctx, name, n, fields, miss=True):
    """n rows; fields: [(field, kinds)]; a field may be missing"""
    rows = []
    for i in range(n):
        row = {}
        for f, kinds in fields:
            if kinds == 'id':
                row[f] = i
            elif not miss or not ctx.flag(f'{name}{i}{f}.miss'):
                row[f] = key_value(ctx, f'{name}{i}{f}', kinds)
        rows.append(row)
    return rows


def copies(rows):
    return [dict(r) for r in rows]


def equal(a, b):
    return ref_compare(a, b) == 0


def unchanged(ctx, what, rows, before, objs):
    ctx.check(len(rows) == len(objs) and all(r is o for r, o in zip(rows, objs)) and all(ident(r, b) for r, b in zip(rows, before)),
              lambda: f'{what} changed its argument: {show(before)} -> {show(rows)}')


# ---- expressions over rows ----------------------------------------------------------------------------------------------------

def get(row, variables, glob, name):
    if name in row:
        return row[name]
    if variables is not None and name in variables:
        return variables[name]
    return glob.get(name)


def calls_big(get_):
    v, lim = get_('x'), get_('glim')
    return ref_compare(v, lim) > 0


# text, meaning as a function of the variable lookup
EXPRS = (
    ('x', lambda g: g('x')),
    ('x > 1', lambda g: ref_compare(g('x'), 1) > 0),
    ('x == y', lambda g: equal(g('x'), g('y'))),
    ('x && y', lambda g: g('y') if ref_truthy(g('x')) else g('x')),
    ('!x || y', lambda g: True if not ref_truthy(g('x')) else g('y')),
    ('x >= lim', lambda g: ref_compare(g('x'), g('lim')) >= 0),
    ('glim != x', lambda g: not equal(g('glim'), g('x'))),
    ('[my field] != null', lambda g: g('my field') is not None),
    ('big(x)', calls_big),
    ('if(x, y, lim)', lambda g: g('y') if ref_truthy(g('x')) else g('lim')),
    ('hostFn(x, lim)', lambda g: [g('x'), g('lim')]),
    ('true', lambda g: True),
    ('x + y', lambda g: ref_binop('+', g('x'), g('y'))),
    ('x * 2 - lim', lambda g: ref_binop('-', ref_binop('*', g('x'), 2), g('lim'))),
    ("'v'", lambda g: 'v'),
    ('null', lambda g: None),
)

BIG = ({'function': {'name': 'big', 'args': ['q'], 'statements': [{'return': {'expr': {'binary': {'op': '>', 'left': {'variable': 'q'}, 'right': {'variable': 'glim'}}}}}]}},)


class Scene:
    """An expression, its variables and the globals, and three ways to call a data function"""

    def __init__(self, ctx, bs):
        self.ctx, self.bs = ctx, bs
        self.expr, self.mean = ctx.pick('expr', EXPRS)
        self.variables = None
        if ctx.flag('vars'):
            self.variables = {'lim': ctx.num('lim', -1, 2, 2)}
            if ctx.flag('vars.x'):
                self.variables['x'] = 7.0
        self.glob = {'glim': 1.0}
        if ctx.flag('glob.lim'):
            self.glob['lim'] = 0.5
        self.g = dict(bs.library.SCRIPT_FUNCTIONS)
        self.g.update(self.glob)
        self.g['hostFn'] = lambda args, options: list(args)
        options = {'globals': self.g, 'statementCount': 0}
        bs.runtime.execute_script({'statements': list(BIG)}, options)
        self.options = options
        # without options there is no way to reach functions: the plain expressions only
        self.way = ctx.choice('way', 3)
        self.vars_before = None if self.variables is None else dict(self.variables)

    def value(self, row):
        glob = {} if self.way == 2 else self.glob
        return self.mean(lambda name: get(row, self.variables, glob, name))

    def usable(self):
        return self.way != 2 or ('hostFn' not in self.expr and 'big' not in self.expr)

    def run(self, lib, py, *args):
        if self.way == 0:
            call_args = list(args) + ([self.variables] if self.variables is not None or self.ctx.flag('null') else [])
            self.g.update({f'arg{i}': a for i, a in enumerate(call_args)})
            return self.bs.runtime.evaluate_expression({'function': {'name': lib, 'args': [{'variable': f'arg{i}'} for i in range(len(call_args))]}}, self.options, None, False)
        fn = getattr(self.bs.data, py)
        if self.way == 1:
            return fn(*args, variables=self.variables, options=self.options)
        return fn(*args, variables=self.variables)

    def clean(self):
        self.ctx.check(self.variables is None or ident(self.variables, self.vars_before), 'the variables were changed')
        ok = all(self.g.get(k) is v for k, v in self.glob.items()) and 'x' not in self.g and 'y' not in self.g and ('lim' in self.g) == ('lim' in self.glob)
        self.ctx.check(ok, 'a global was changed')
        self.ctx.check(self.options.get('globals') is self.g, 'the globals of the run were replaced')


def rows_xy(ctx, n):
    fields = [('id', 'id'), ('x', ('null', 'num', 'str', 'bool', 'list')), ('y', PLAIN)]
    rows = table(ctx, 'r', n, fields)
    for i, row in enumerate(rows):
        extra = ctx.choice(f'r{i}.more', 3)
        if extra == 1:
            row['lim'] = ctx.num(f'r{i}.lim', -1, 2, 2)
        elif extra == 2:
            row['my field'] = ctx.pick(f'r{i}.mf', (None, 0.0))
    return rows


def filter_(ctx, bs):
    """dataFilter keeps exactly the truthy rows, in order"""
    sc = Scene(ctx, bs)
    ctx.assume(sc.usable())
    rows = rows_xy(ctx, ctx.choice('n', ctx.params['rows'] + 1))
    before, objs = copies(rows), list(rows)
    res = sc.run('dataFilter', 'filter_data', rows, sc.expr)
    want = [r for r in rows if ref_truthy(sc.value(r))]
    ctx.reach()
    ctx.check(ref_type(res) == 'array' and len(res) == len(want) and all(a is b for a, b in zip(res, want)),
              lambda: f'dataFilter({show(rows)}, "{sc.expr}", {show(sc.variables)}) = {show(res)}, expected {show(want)}')
    unchanged(ctx, 'dataFilter', rows, before, objs)
    sc.clean()


def calculated(ctx, bs):
    """dataCalculatedField sets the expression value on every row"""
    sc = Scene(ctx, bs)
    ctx.assume(sc.usable())
    rows = rows_xy(ctx, ctx.choice('n', ctx.params['rows'] + 1))
    field = ctx.pick('field', ('z', 'x', 'y', 'lim', 'my field'))
    before, objs = copies(rows), list(rows)
    want = []
    for r in before:
        w = dict(r)
        w[field] = sc.value(r)
        want.append(w)
    res = sc.run('dataCalculatedField', 'add_calculated_field', rows, field, sc.expr)
    ctx.reach()
    ctx.check(res is rows and len(rows) == len(objs) and all(a is b for a, b in zip(rows, objs)), lambda: f'dataCalculatedField does not return its rows: {show(res)}')
    ctx.check(all(set(r) == set(w) and all(same(r[k], w[k]) or (r[k] is None and w[k] is None) for k in w) for r, w in zip(rows, want)),
              lambda: f'dataCalculatedField({show(before)}, "{field}", "{sc.expr}", {show(sc.variables)}) = {show(rows)}, expected {show(want)}')
    sc.clean()


# ---- sort and top -----------------------------------------------------------------------------------------------------------------

def sort(ctx, bs):
    """dataSort: stable, by each key in turn"""
    n = ctx.choice('n', ctx.params['rows'] + 1)
    nk = ctx.choice('nk', 3) + 1
    sorts = []
    for k in range(nk):
        d = ctx.choice(f'd{k}', 4)
        sorts.append([ctx.pick(f'f{k}', ('a', 'b', 'c')) if k else 'a'] + ([] if d == 0 else [d == 1] if d < 3 else [None]))
    rows = table(ctx, 'r', n, [('id', 'id'), ('a', ctx.params['kinds']), ('b', ('num', 'null')), ('c', ('bool',))])
    if ctx.flag('dup') and n > 1:
        rows[-1] = rows[0]
    orig = list(rows)
    before = copies(rows)
    res = call(bs, 'dataSort', [rows, sorts]) if ctx.flag('lib') else bs.data.sort_data(rows, sorts)

    def order(x, y):
        for s in sorts:
            r = ref_compare(x.get(s[0]), y.get(s[0]))
            if r != 0:
                return -r if len(s) > 1 and s[1] else r
        return 0
    want = []
    for row in orig:
        i = len(want)
        while i > 0 and order(want[i - 1], row) > 0:
            i -= 1
        want.insert(i, row)
    ctx.reach()
    ctx.check(res is rows, 'dataSort does not return its array')
    ctx.check(len(res) == len(want) and all(a is b for a, b in zip(res, want)), lambda: f'dataSort {sorts} of {show(orig)} gives {show(res)}, expected {show(want)}')
    ctx.check(all(ident(a, b) for a, b in zip(orig, before)), 'dataSort changed a row')


def groups(rows, fields):
    """Rows by their values of the fields, in order of first appearance"""
    out = []
    for r in rows:
        key = [r.get(f) for f in fields]
        for k, members in out:
            if equal(k, key):
                members.append(r)
                break
        else:
            out.append((key, [r]))
    return out


def top(ctx, bs):
    """dataTop keeps the first n rows of each category"""
    rows = table(ctx, 'r', ctx.choice('n', ctx.params['rows'] + 1), [('id', 'id'), ('a', KEYS), ('b', ('num', 'null', 'bool'))])
    fields = ctx.pick('fields', (None, [], ['a'], ['a', 'b'], ['b', 'a'], ['none'], ['b']))
    count = ctx.int('count', 1, 4)
    if ctx.flag('float'):
        count = float(count)
    before, objs = copies(rows), list(rows)
    how = ctx.choice('how', 3)
    if how == 0:
        res = call(bs, 'dataTop', [rows, count, fields])
    elif how == 1 and fields is None:
        res = call(bs, 'dataTop', [rows, count])
    else:
        res = bs.data.top_data(rows, count, fields)
    ctx.reach()
    ctx.check(ref_type(res) == 'array', lambda: f'dataTop({show(rows)}, {show(count)}, {fields}) = {show(res)}')
    want = []
    for _, members in groups(rows, fields or []):
        for i, r in enumerate(members):
            if i < count:
                want.append(r['id'])
    got = [r['id'] for r in res]
    ctx.check(sorted(got) == sorted(want) and all(any(r is o for o in objs) for r in res), lambda: f'dataTop({show(rows)}, {show(count)}, {fields}) keeps the rows {got}, expected {want}')
    for _, members in groups(rows, fields or []):
        ids = [r['id'] for r in members]
        kept = [i for i in got if i in ids]
        ctx.check(kept == sorted(kept), lambda: f'dataTop reorders the rows of a category: {got}')
    unchanged(ctx, 'dataTop', rows, before, objs)


# ---- aggregate ------------------------------------------------------------------------------------------------------------------------

FUNCS = ('count', 'sum', 'min', 'max', 'average', 'stddev')


def close(a, b, eps=1e-9):
    return is_num(a) and is_num(b) and -eps <= a - b and a - b <= eps


def measure_ok(func, values, got):
    """Is got the value of the aggregate function?"""
    n = len(values)
    if n == 0:
        return got is None or (func == 'count' and is_num(got) and got == 0)
    if func == 'count':
        return is_num(got) and got == n
    if func in ('min', 'max'):
        return any(same(got, v) for v in values) and all((ref_compare(got, v) <= 0) if func == 'min' else (ref_compare(got, v) >= 0) for v in values)
    s = 0
    for v in values:
        s = s + v
    if func == 'sum':
        return is_num(got) and got == s
    if func == 'average':
        return is_num(got) and close(got * n, s)
    q = 0
    for v in values:
        q = q + v * v
    return is_num(got) and got >= 0 and close(got * got * n * n, q * n - s * s, 1e-6)


def check_aggregate(ctx, rows, agg, res):
    cats = agg.get('categories', [])
    want = groups(rows, cats)
    text = lambda: f'dataAggregate({show(rows)}, {agg}) = {show(res)}'         # noqa: E731
    ctx.check(ref_type(res) == 'array' and len(res) == len(want), lambda: f'{text()}: expected {len(want)} rows')
    names = [m.get('name', m['field']) for m in agg['measures']]
    left = list(res)
    for key, members in want:
        hit = None
        for r in left:
            if all(equal(r.get(c), k) for c, k in zip(cats, key)):
                hit = r
                break
        ctx.check(hit is not None, lambda: f'{text()}: no row for the categories {show(key)}')
        left = [r for r in left if r is not hit]
        ctx.check(sorted(hit) == sorted(set(list(cats) + names)), lambda: f'{text()}: fields')
        for m, name in zip(agg['measures'], names):
            values = [r[m['field']] for r in members if r.get(m['field']) is not None]
            ctx.check(measure_ok(m['function'], values, hit[name]), lambda: f'{text()}: the {m["function"]} of {show(values)} is not {show(hit[name])}')


def run_aggregate(ctx, bs, rows, agg):
    before, objs = copies(rows), list(rows)
    model = {k: [dict(m) for m in v] if k == 'measures' else list(v) for k, v in agg.items()}
    res = call(bs, 'dataAggregate', [rows, model]) if ctx.flag('lib') else bs.data.aggregate_data(rows, model)
    ctx.reach()
    check_aggregate(ctx, rows, agg, res)
    unchanged(ctx, 'dataAggregate', rows, before, objs)
    ctx.check(model == agg, 'dataAggregate changed the aggregation')


def agg_groups(ctx, bs):
    """Partition by categories of any type"""
    rows = table(ctx, 'r', ctx.choice('n', ctx.params['rows'] + 1), [('a', KEYS), ('b', ('num', 'null', 'bool')), ('m', ('int', 'null'))])
    agg = {'measures': [{'field': 'm', 'function': ctx.pick('f', ('count', 'sum', 'max'))}]}
    cats = ctx.pick('cats', (['a'], ['a', 'b'], ['b'], ['b', 'a'], ['none']))
    agg['categories'] = cats
    run_aggregate(ctx, bs, rows, agg)


def agg_measures(ctx, bs):
    """Measures over numbers, nulls and missing fields"""
    n = ctx.choice('n', ctx.params['rows'] + 1)
    rows = []
    for i in range(n):
        row = {'c': ctx.choice(f'c{i}', 2)}
        for f in ('m', 'k'):
            w = ctx.choice(f'{f}{i}.w', 4)
            if w == 1:
                row[f] = None
            elif w == 2:
                row[f] = ctx.num(f'{f}{i}', -4, 4, 4)
            elif w == 3:
                row[f] = ctx.int(f'{f}{i}.i', -9, 9)
        rows.append(row)
    measures = []
    for i in range(ctx.choice('nm', 3) + 1):
        m = {'field': ctx.pick(f'f{i}', ('m', 'k', 'none')), 'function': ctx.pick(f'fn{i}', FUNCS[:5])}
        if i or ctx.flag(f'nm{i}'):
            m['name'] = ctx.pick(f'as{i}', (f'r{i}', 'm', 'k', 'none'))
        ctx.assume(m.get('name', m['field']) not in [o.get('name', o['field']) for o in measures])
        measures.append(m)
    agg = {'measures': measures}
    if ctx.flag('cats'):
        agg['categories'] = ['c']
    run_aggregate(ctx, bs, rows, agg)


def many(ctx, bs):
    """More rows than the other harnesses have, with narrow values: top, aggregate, sort, filter, join"""
    n = 4 + ctx.choice('n', ctx.params['rows'] - 3)
    text = ctx.flag('text')
    rows = [{'id': i, 'a': ctx.str(f's{i}', 1, 'xyz') if text else ctx.int(f'a{i}', 0, 2), 'b': ctx.int(f'b{i}', 0, 1)} for i in range(n)]
    fields = ctx.pick('fields', (['a'], ['a', 'b'], ['b']))
    what = ctx.pick('what', ('top', 'aggregate', 'sort', 'filter', 'join', 'calculated'))
    before, objs = copies(rows), list(rows)
    if what == 'aggregate':
        run_aggregate(ctx, bs, rows, {'categories': fields, 'measures': [{'field': 'id', 'function': ctx.pick('func', FUNCS[:5])}, {'name': 'c', 'field': 'b', 'function': 'count'}]})
        return
    if what == 'join':
        right = [{'k': ctx.str(f'rs{i}', 1, 'xyz') if text else ctx.int(f'ra{i}', 0, 2), 'rid': i} for i in range(ctx.choice('nr', 4) + 1)]
        run_join(ctx, bs, rows, right, 'a', 'k', [r['a'] for r in rows], [r['k'] for r in right])
        return
    if what == 'top':
        count = ctx.choice('count', 4) + 1
        res = call(bs, 'dataTop', [rows, count, fields])
        want = []
        for _, members in groups(rows, fields):
            want.extend(r['id'] for r in members[:count])
        ctx.reach()
        ctx.check(sorted(r['id'] for r in res) == sorted(want) and all(any(r is o for o in objs) for r in res), lambda: f'dataTop({show(rows)}, {count}, {fields}) = {show(res)}')
    elif what == 'sort':
        desc = ctx.flag('desc')
        res = call(bs, 'dataSort', [list(rows), [[f, desc] for f in fields]])
        ctx.reach()
        ok = len(res) == n and all(any(r is o for o in objs) for r in res)
        for x, y in zip(res, res[1:]):
            kx, ky = [x[f] for f in fields], [y[f] for f in fields]
            ok = ok and (kx < ky if not desc else kx > ky) or (kx == ky and x['id'] < y['id'])
            ctx.check(ok, lambda: f'dataSort({show(rows)}, {fields}, {desc}) = {show(res)}')
    elif what == 'filter':
        res = call(bs, 'dataFilter', [rows, 'a == lim || b', {'lim': 'y' if text else 1}])
        want = [r for r in rows if r['a'] == ('y' if text else 1) or r['b'] != 0]
        ctx.reach()
        ctx.check(len(res) == len(want) and all(x is y for x, y in zip(res, want)), lambda: f'dataFilter({show(rows)}) = {show(res)}')
    else:
        res = call(bs, 'dataCalculatedField', [rows, 'c', 'id * 2 + b'])
        ctx.reach()
        ctx.check(res is rows and all(x is o and x['c'] == y['id'] * 2 + y['b'] and set(x) == {'id', 'a', 'b', 'c'} for x, o, y in zip(rows, objs, before)), lambda: f'dataCalculatedField({show(before)}) = {show(res)}')
        return
    unchanged(ctx, 'dataTop', rows, before, objs)


def agg_stddev(ctx, bs):
    """Population standard deviation"""
    n = ctx.choice('n', 4)
    rows = []
    for i in range(n):
        v = None if ctx.flag(f'null{i}') else ctx.int(f'm{i}', 0, 3)
        rows.append({'c': ctx.choice(f'c{i}', 2), 'm': v})
    agg = {'measures': [{'field': 'm', 'function': 'stddev'}]}
    if ctx.flag('cats'):
        agg['categories'] = ['c']
    run_aggregate(ctx, bs, rows, agg)


def agg_extremes(ctx, bs):
    """min, max and count of strings, datetimes and booleans"""
    kind = ctx.pick('kind', ('str', 'dt', 'date', 'bool', 'num'))
    rows = [{'m': key_value(ctx, f'm{i}', ('null', kind))} for i in range(ctx.choice('n', 3) + 1)]
    run_aggregate(ctx, bs, rows, {'measures': [{'field': 'm', 'function': f, 'name': f} for f in (('min', 'max', 'count') if kind != 'bool' else ('count',))]})


# ---- join ---------------------------------------------------------------------------------------------------------------------------------

def check_join(ctx, left, right, lkey, rkey, res, text):
    """Pairs in order; left fields kept; right fields under their own or a free name"""
    lnames, rnames = [], []
    for r in left:
        lnames += [f for f in r if f not in lnames]
    for r in right:
        rnames += [f for f in r if f not in rnames]
    names = {}
    for f in rnames:
        name, k = f, 2
        while name in lnames or (name != f and (name in rnames or name in names.values())):
            name = f'{f}{k}'
            k += 1
        names[f] = name
    ctx.check(ref_type(res) == 'array', lambda: f'{text()} = {show(res)}')
    out = list(res)
    for lr, lk in zip(left, lkey):
        hits = [rr for rr, rk in zip(right, rkey) if equal(lk, rk)]
        if not hits:
            # may stay alone
            if out and ident(out[0], lr) and out[0] is not lr:
                out.pop(0)
            continue
        for rr in hits:
            want = dict(lr)
            for f, v in rr.items():
                want[names[f]] = v
            ctx.check(len(out) > 0, lambda: f'{text()} = {show(res)}: no row {show(want)}')
            got = out.pop(0)
            ctx.check(ref_type(got) == 'object' and set(got) == set(want) and all(got[f] is want[f] for f in want), lambda: f'{text()} = {show(res)}: {show(got)} instead of {show(want)}')
    ctx.check(len(out) == 0, lambda: f'{text()} = {show(res)}: surplus rows {show(out)}')


def run_join(ctx, bs, left, right, expr, rexpr, lkey, rkey, variables=None, glob=None):
    g = {'key': lambda args, options: list(args)}
    if glob:
        g.update(glob)
    snap = [copies(left), list(left), copies(right), list(right)]
    il = ctx.choice('isLeft', 3 if variables is None else 2)
    text = lambda: f'dataJoin({show(left)}, {show(right)}, "{expr}", {rexpr!r}, {il == 1}, {show(variables)})'          # noqa: E731
    way = ctx.choice('way', 2)
    if way == 0:
        args = [left, right, expr, rexpr, il == 1, variables] if il < 2 else [left, right, expr] + ([rexpr] if rexpr is not None else [])
        all_g = dict(bs.library.SCRIPT_FUNCTIONS)
        all_g.update(g)
        all_g.update({f'arg{i}': a for i, a in enumerate(args)})
        options = {'globals': all_g, 'statementCount': 0}
        before = dict(all_g)
        res = bs.runtime.evaluate_expression({'function': {'name': 'dataJoin', 'args': [{'variable': f'arg{i}'} for i in range(len(args))]}}, options, None, False)
    else:
        options = {'globals': g} if 'key' in expr or glob or ctx.flag('options') else None
        before = dict(g)
        res = bs.data.join_data(left, right, expr, right_expr=rexpr, is_left_join=il == 1, variables=variables, options=options)
    ctx.reach()
    if options is not None:
        now = options['globals']
        ctx.check(now is (all_g if way == 0 else g) and list(now) == list(before) and all(now[k] is before[k] for k in before), lambda: f'{text()} changed the globals of its caller')
    check_join(ctx, left, right, lkey, rkey, res, text)
    unchanged(ctx, 'dataJoin', left, snap[0], snap[1])
    unchanged(ctx, 'dataJoin', right, snap[2], snap[3])


def join_keys(ctx, bs):
    """Keys of any type"""
    n = ctx.params['rows']
    left = table(ctx, 'l', ctx.choice('nl', n + 1), [('k', KEYS), ('id', 'id')])
    right = table(ctx, 'r', ctx.choice('nr', n + 1), [('k', KEYS), ('id', 'id')])
    run_join(ctx, bs, left, right, 'k', None, [r.get('k') for r in left], [r.get('k') for r in right])


def join_names(ctx, bs):
    """Colliding field names"""
    fields = ('a', 'a2', 'a3', 'b', 'a22')
    left = [{'k': 1.0} for _ in range(ctx.choice('nl', 2) + 1)]
    right = [{'k': 1.0} for _ in range(ctx.choice('nr', 2) + 1)]
    for t, rows in (('l', left), ('r', right)):
        rev = ctx.flag(t + '.rev')
        for i, r in enumerate(rows):
            for f in (reversed(fields) if rev else fields):
                if ctx.flag(f'{t}{i}.{f}'):
                    r[f] = f'{t}{i}.{f}'
    run_join(ctx, bs, left, right, 'k', None, [1] * len(left), [1] * len(right))


JEXPRS = (
    ('x', None, lambda g: g('x'), lambda g: g('x')),
    ('x', 'y', lambda g: g('x'), lambda g: g('y')),
    ('x + lim', 'y', lambda g: ref_binop('+', g('x'), g('lim')), lambda g: g('y')),
    ('key(x, y)', None, lambda g: [g('x'), g('y')], lambda g: [g('x'), g('y')]),
    ('key(x, 1)', 'key(y, 1)', lambda g: [g('x'), 1], lambda g: [g('y'), 1]),
    ('x > lim', 'y == null', lambda g: ref_compare(g('x'), g('lim')) > 0, lambda g: g('y') is None),
    ('lim', 'lim', lambda g: g('lim'), lambda g: g('lim')),
)


def join_exprs(ctx, bs):
    """Left and right expressions with variables"""
    left = table(ctx, 'l', ctx.choice('nl', 3), [('x', PLAIN), ('y', ('num', 'null'))])
    right = table(ctx, 'r', ctx.choice('nr', 3), [('y', PLAIN), ('x', ('num', 'null'))])
    expr, rexpr, lm, rm = ctx.pick('expr', JEXPRS)
    variables = {'lim': ctx.num('lim', 0, 1, 2)} if ctx.flag('vars') else None
    if ctx.flag('row.lim'):
        for r in right[:1] + left[:1]:
            r['lim'] = 0.5
    glob = {'lim': 1.0} if ctx.flag('glob') else {}
    run_join(ctx, bs, left, right, expr, rexpr, [lm(lambda f, r=r: get(r, variables, glob, f)) for r in left], [rm(lambda f, r=r: get(r, variables, glob, f)) for r in right], variables, glob)


# ---- CSV ------------------------------------------------------------------------------------------------------------------------------------

def quote(s):
    return '"' + s.replace('"', '""') + '"'


def must_quote(s):
    return any(c in ',"\r\n' for c in s) or s[:1] == ' '


def write_cell(ctx, name, text, alone):
    """The CSV text of one cell; quoted where needed, or by choice"""
    if must_quote(text) or (alone and text == '') or ctx.flag(name + '.q'):
        return quote(text)
    return text


def split_rows(ctx, lines):
    """The rows over one or more text arguments"""
    way = ctx.choice('split', 4)
    if way == 0 or len(lines) < 2:
        return [''.join(lines)]
    if way == 1:
        return [lines[0], ''.join(lines[1:])]
    if way == 2:
        return [lines[0], None] + lines[1:]
    return [''.join(lines[:-1]), lines[-1], '']


def write(ctx, header, cells):
    """CSV text arguments of a table of cell texts"""
    eol = ctx.pick('eol', ('\n', '\r\n'))
    alone = len(header) == 1
    lines = [','.join([write_cell(ctx, f'h{i}', h, alone) for i, h in enumerate(header)]) + eol]
    sep = ',' if not ctx.flag('blank') else ', '
    for i, row in enumerate(cells):
        line = sep.join([write_cell(ctx, f'c{i}{k}', c, alone) for k, c in enumerate(row)])
        if i % 2 == 1 and ctx.flag(f'skip{i}'):
            line = line + eol
        lines.append(line + eol)
    if ctx.flag('noend'):
        last = lines[-1]
        lines[-1] = last[:len(last) - len(eol)]
    return split_rows(ctx, lines)


TEXTS = 'x ,"\n1é\''


def column(ctx, name, n):
    """(value, text) of the cells of a typed column"""
    kind = ctx.pick(name + '.type', ('num', 'bool', 'dt', 'date', 'str', 'word'))
    out = []
    first = True
    for i in range(n):
        c = f'{name}{i}'
        if ctx.flag(c + '.null'):
            out.append((None, 'null' if kind in ('str', 'word') or ctx.flag(c + '.word') else ''))
            continue
        if kind == 'num':
            v = ctx.num(c, -4, 12, 4)
            t = num_text(v)
            form = ctx.pick(c + '.form', ('', '-', '0', '.0', '.00', '-.0'))
            # other spellings of the number
            if form == '0':
                t = '-0' + t[1:] if t[0] == '-' else '0' + t
            elif form in ('.0', '.00', '-.0'):
                t = t + (form.lstrip('-') if '.' not in t else '0')
            if form in ('-', '-.0') and v == 0:
                t = '-' + t
        elif kind == 'bool':
            v = ctx.flag(c)
            t = 'true' if v else 'false'
        elif kind == 'dt':
            v = make_dt(ctx, 2024, ctx.pick(c + '.mo', (1, 12)), ctx.int(c + '.d', 1, 31), ctx.int(c + '.h', 0, 23), 59, 1, ctx.pick(c + '.ms', (0, 5, 120, 999)) * 1000)
            t = ref_iso(v)
        elif kind == 'date':
            v = make_date(ctx, ctx.pick(c + '.y', (100, 1999, 2024)), 2, ctx.int(c + '.d', 1, 28))
            t = ref_iso(v)[:10]
        elif kind == 'str':
            v = ctx.str(c, ctx.choice(c + '.n', ctx.params['len'] + 1), TEXTS)
            if first:
                v = ctx.pick(c + '.start', ('x', '', 'é ', ' x', 'a,b', 'q"')) + v
                if v == '':
                    out.append((v, v))
                    continue
                ctx.assume(v[0] != '1' and v.strip(' \n') != '' and v.strip(' \n')[0] not in '1')
            t = v
        else:
            words = ('1', 'true', '2024-01-01', '2024-01-01T00:00:00Z', 'NULL', 'Null', 'nullx', '', ' null', 'a\r\nb', '1e5', '-')
            v = ctx.pick(c, ('x',) + words) if not first else ctx.pick(c + '.0', ('x', 'True', '2024-02-30', '2024-13-01', '12:30', '1/2', '2024-1-1', '-', '1,000'))
            t = v
        first = False
        out.append((v, t))
    return out


def csv_typed(ctx, bs):
    """A typed table written as CSV and read back"""
    nc = ctx.choice('nc', ctx.params['cols']) + 1
    n = ctx.choice('n', ctx.params['rows'] + (3 if nc == 1 else 1))
    names = ctx.pick('names', (('a', 'b', 'c'), ('b c', 'x,y', 'q"r'), ('1', 'null', 'a\nb')))[:nc]
    cols = [column(ctx, f'k{i}', n) for i in range(nc)]
    # a string column needs a cell that is not empty or null, else its type shows nowhere; the values are the same
    args = write(ctx, names, [[c[i][1] for c in cols] for i in range(n)])
    want = [{name: c[i][0] for name, c in zip(names, cols)} for i in range(n)]
    res = call(bs, 'dataParseCSV', args)
    ctx.reach()
    # an empty cell of a column without any type stays an empty string
    untyped = [all(v is None or (t == '') for v, t in c) for c in cols]
    ok = ref_type(res) == 'array' and len(res) == n
    if ok:
        for r, w in zip(res, want):
            ok = ok and set(r) == set(w)
            if ok:
                for name, un in zip(names, untyped):
                    ok = ok and (same(r[name], w[name]) if not un else r[name] is None or r[name] == '')
    ctx.check(ok, lambda: f'{show(want)} written as {show(args)} is read as {show(res)}')


def csv_dates(ctx, bs):
    """Cells that resemble dates"""
    ctx.symdigits = True
    use_zone(ctx, 0)
    d = ctx.str('d', 2, '0123456789')
    m = ctx.str('m', 2, '0123456789') if ctx.flag('month') else '02'
    y = ctx.pick('y', ('2024', '2023', '1900', '0000', '9999'))
    form = ctx.choice('form', 4)
    text = y + '-' + m + '-' + d
    if form == 3:
        # A quoted cell with one more character
        text = text + ctx.str('u', 1, '\n \t\u0661Z')
        t = 'a,b\n1,"' + text + '"\n'
        res = call(bs, 'dataParseCSV', [t])
        ctx.reach('no date')
        ctx.check(ref_type(res) == 'array' and len(res) == 1, lambda: f'dataParseCSV({show(t)}) = {show(res)}')
        v = res[0]['b']
        ctx.check(isinstance(v, str) and v == text, lambda: f'dataParseCSV({show(t)}): {show(v)} instead of the text')
        return
    valid_hm = True
    if form:
        hh = ctx.str('hh', 2, '0123456789') if not ctx.flag('noon') else '12'
        mm = '30' if form == 1 else '61'
        text = text + 'T' + hh + ':' + mm + ':00Z'
        valid_hm = int(hh) < 24 and form == 1
        ctx.assume(int(hh) != 24)
    mo, dd, yy = int(m), int(d), int(y)
    leap = yy % 4 == 0 and (yy % 100 != 0 or yy % 400 == 0)
    valid = valid_hm and yy > 0 and 1 <= mo and mo <= 12 and dd >= 1
    if valid:
        for k, length in enumerate((31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)):
            if mo == k + 1:
                valid = dd <= length
                break
    other = ctx.choice('other', 3)
    rows = [text] if other == 0 else [text, ''] if other == 1 else ['null', text]
    t = 'a,b\n' + '\n'.join(['n1,' + r for r in rows]) + '\n'
    res = call(bs, 'dataParseCSV', [t])
    ctx.reach('date' if valid else 'no date')
    ctx.check(ref_type(res) == 'array' and len(res) == len(rows), lambda: f'dataParseCSV({show(t)}) = {show(res)}')
    v = res[1 if other == 2 else 0]['b']
    if valid:
        ctx.check(ref_type(v) == 'datetime', lambda: f'dataParseCSV({show(t)}) = {show(res)}')
        x = ref_dt(v)
        ctx.check(x.year == yy and x.month == mo and x.day == dd and (x.hour == int(hh) and x.minute == 30 if form else x.hour == 0), lambda: f'dataParseCSV({show(t)}) = {show(res)}')
    else:
        ctx.check(isinstance(v, str) and v == text, lambda: f'dataParseCSV({show(t)}): {show(v)} instead of the text')


class BadCSV(Exception):
    pass


def read_csv(text):
    """Rows of cells of well-formed CSV text (RFC 4180, leading blanks of a cell dropped); BadCSV if it is not"""
    rows, i, n = [], 0, len(text)
    while i < n:
        row = []
        while True:
            while i < n and text[i] == ' ':
                i += 1
            if i < n and text[i] == '"':
                i += 1
                cell = ''
                while True:
                    if i >= n:
                        raise BadCSV()
                    if text[i] == '"':
                        i += 1
                        if i < n and text[i] == '"':
                            cell = cell + '"'
                            i += 1
                            continue
                        break
                    cell = cell + text[i]
                    i += 1
                if i < n and text[i] not in ',\n':
                    raise BadCSV()
            else:
                k = i
                while i < n and text[i] not in ',\n':
                    if text[i] == '"':
                        raise BadCSV()
                    i += 1
                cell = text[k:i]
            row.append(cell)
            if i < n and text[i] == ',':
                i += 1
                continue
            i += 1
            break
        rows.append(row)
    return rows


def csv_text(ctx, bs):
    """Any well-formed text: the cells of each row under their headers"""
    body = ctx.str('t', ctx.choice('n', ctx.params['len'] + 1), 'x,"\n ')
    text = 'p,q\nz,z\n' + body
    rows = None
    try:
        rows = read_csv(text)
    except BadCSV:
        pass
    ctx.assume(rows is not None)
    # a line of blanks is not an empty line
    want = []
    for row in rows[1:]:
        if len(row) == 1 and row[0] == '':
            ctx.assume(False)
        ctx.assume(len(row) <= 2)
        want.append({'p': row[0], 'q': row[1] if len(row) > 1 else None})
    res = call(bs, 'dataParseCSV', [text])
    ctx.reach()
    ctx.check(ref_type(res) == 'array' and len(res) == len(want) and all(set(r) == {'p', 'q'} and r['p'] == w['p'] and (r['q'] == w['q'] if w['q'] is not None else r['q'] is None or r['q'] == '') for r, w in zip(res, want)),
              lambda: f'dataParseCSV({show(text)}) = {show(res)}, expected {show(want)}')


HARNESSES = [
    Harness(filter_, 'filter', weight=1.5, order='random', quick={'rows': 3}, thorough={'rows': 5}, bounds='<= rows rows, 16 expressions, three ways to call'),
    Harness(calculated, weight=1, order='random', quick={'rows': 3}, thorough={'rows': 4}, bounds='<= rows rows, 16 expressions, 5 target fields'),
    Harness(sort, weight=1.5, order='random', quick={'rows': 3, 'kinds': ('null', 'num', 'str', 'dt', 'bool', 'date')}, thorough={'rows': 5}, bounds='<= rows rows, <= 3 keys'),
    Harness(top, weight=1.5, order='random', quick={'rows': 3}, thorough={'rows': 5}, bounds='<= rows rows, symbolic count 1..4'),
    Harness(many, weight=1.2, order='random', quick={'rows': 6}, thorough={'rows': 8}, bounds='4 to rows rows of narrow values, six functions'),
    Harness(agg_groups, weight=1.5, order='random', quick={'rows': 3}, thorough={'rows': 4}, bounds='<= rows rows, <= 2 categories of any type'),
    Harness(agg_measures, weight=1.5, order='random', quick={'rows': 3}, thorough={'rows': 5}, bounds='<= rows rows, <= 3 measures'),
    Harness(agg_stddev, weight=.7, bounds='<= 3 rows, integers 0..3'),
    Harness(agg_extremes, weight=.7, order='random', bounds='<= 3 rows'),
    Harness(join_keys, weight=2, order='random', quick={'rows': 2}, thorough={'rows': 3}, bounds='<= rows x rows, keys of any type'),
    Harness(join_names, weight=1, order='random', bounds='every choice of 5 field names in <= 2 x 2 rows'),
    Harness(join_exprs, weight=1.5, order='random', bounds='<= 2 x 2 rows, 7 expression pairs'),
    Harness(csv_typed, weight=2, order='random', quick={'rows': 2, 'cols': 2, 'len': 2}, thorough={'rows': 4, 'cols': 3, 'len': 3}, bounds='<= rows x cols, <= rows + 2 in one column'),
    Harness(csv_dates, weight=1, bounds='symbolic day, month, hour digits'),
    Harness(csv_text, weight=1.5, order='random', quick={'len': 6}, thorough={'len': 8}, bounds='<= len symbolic characters'),
]
QUICK_SECONDS = 75
