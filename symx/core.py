"""Concolic path state: inputs, the recorded path condition, and its expansion by the solver."""

import os
import time

try:
    import z3
except ImportError:     # replay on the plain interpreter
    z3 = None

CUR = None          # current Ctx (one per process, one path at a time)


class Abandon(BaseException):
    """Path left on purpose (assumption not met)."""


class PathTimeout(BaseException):
    """Wall-clock limit of one path."""


class CheckFailed(BaseException):
    """Assertion of a harness is false on this path."""
    def __init__(self, message):
        super().__init__(message)
        self.message = message


QUERY_TIMEOUT_MS = 4000
DEBUG_DIV = bool(os.environ.get('SYMX_DIV'))


class Stats(dict):
    KEYS = ('paths', 'abandoned', 'z3_queries', 'z3_sat', 'z3_unsat', 'z3_unknown', 'z3_cached', 'z3_time', 'fd_decisions', 'shape_forks',
            'branches', 'pins', 'divergences', 'timeouts', 'checks', 'witness', 'assert_queries')

    def __init__(self):
        super().__init__((k, 0) for k in self.KEYS)

    def merge(self, other):
        for k, v in other.items():
            self[k] = self.get(k, 0) + v


class Entry:
    """One recorded branch. kind: 'b' z3 boolean, 'f' finite-domain membership, 'c' choice, 'a' assumption (not flipped)"""
    __slots__ = ('kind', 'term', 'taken', 'vs', 'var', 'aset', 'n', 'pin', 'prefer')

    def __init__(self, kind, term, taken, vs, var=None, aset=None, n=0):
        self.kind = kind
        self.term = term
        self.taken = taken
        self.vs = vs
        self.var = var
        self.aset = aset
        self.n = n
        self.pin = None
        self.prefer = None


_set_terms = {}
_int_vars = {}


def int_var(name):
    v = _int_vars.get(name)
    if v is None:
        v = _int_vars[name] = z3.Int(name)
    return v


def set_term(name, aset):
    """z3 term: var in aset (ranges)"""
    key = (name, aset)
    t = _set_terms.get(key)
    if t is None:
        var = int_var(name)
        parts = []
        vals = sorted(aset)
        i = 0
        while i < len(vals):
            j = i
            while j + 1 < len(vals) and vals[j + 1] == vals[j] + 1:
                j += 1
            if i == j:
                parts.append(var == vals[i])
            else:
                parts.append(z3.And(var >= vals[i], var <= vals[j]))
            i = j + 1
        t = z3.Or(*parts) if len(parts) != 1 else parts[0]
        if not parts:
            t = z3.BoolVal(False)
        if len(_set_terms) > 50000:
            _set_terms.clear()
        _set_terms[key] = t
    return t


_query_cache = {}


class Ctx:
    """Symbolic context: one path."""
    symbolic = True

    def __init__(self, inputs, params, stats, hist=None):
        self.inputs = dict(inputs)
        self.bounds = {}         # initial bounds of the integers
        self.hist = hist or {}      # trace index of a concretisation -> values already explored there
        self.params = params
        self.stats = stats
        self.trace = []
        self.decided = {}
        self.dom = {}            # finite-domain var -> current domain
        self.dom0 = {}           # initial domain
        self.names = {}
        self.notes = []
        self.used = {}
        self.reached = set()

    # -- naming -------------------------------------------------------------------------------------------------------
    def _name(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else f'{name}#{n}'

    # -- primitive symbolic inputs --------------------------------------------------------------------------------------
    def choice(self, name, n):
        """Fork over range(n); returns a concrete int"""
        name = self._name(name)
        if n == 1:
            return 0
        v = self.inputs.get(name, 0)
        if not 0 <= v < n:
            v = 0
        self.inputs[name] = v
        self.trace.append(Entry('c', None, v, frozenset((name,)), name, None, n))
        self.stats['branches'] += 1
        return v

    def pick(self, name, options):
        return options[self.choice(name, len(options))]

    def flag(self, name):
        return self.choice(name, 2) == 1

    def int(self, name, lo, hi, default=None):
        from .vals import SymInt
        name = self._name(name)
        v = self.inputs.get(name)
        if v is None or not lo <= v <= hi:
            v = default if default is not None else (0 if lo <= 0 <= hi else lo)
        self.inputs[name] = v
        var = int_var(name)
        vs = frozenset((name,))
        self.bounds[name] = (lo, hi)
        self.trace.append(Entry('a', z3.And(var >= lo, var <= hi), True, vs))
        return SymInt.make(v, var, vs)

    def num(self, name, lo, hi, den=4):
        """A float on the grid k/den, lo <= k/den <= hi"""
        from .vals import SymFloat
        name = self._name(name)
        klo, khi = int(lo * den), int(hi * den)
        k = self.inputs.get(name)
        if k is None or not klo <= k <= khi:
            k = 0 if klo <= 0 <= khi else klo
        self.inputs[name] = k
        var = int_var(name)
        vs = frozenset((name,))
        self.trace.append(Entry('a', z3.And(var >= klo, var <= khi), True, vs))
        return SymFloat.make(k / den, ('g', var, den), vs)

    def char(self, name, domain):
        from .vals import SymChar
        name = self._name(name)
        if not isinstance(domain, frozenset):
            domain = frozenset(ord(c) if isinstance(c, str) else c for c in domain)
        v = self.inputs.get(name)
        if v is None or v not in domain:
            v = 97 if 97 in domain else min(domain)
        self.inputs[name] = v
        self.dom[name] = domain
        self.dom0[name] = domain
        return SymChar(name, v)

    def str(self, name, n, domain):
        from .vals import SymStr
        return SymStr.make(tuple(self.char(f'{name}.{i}', domain) for i in range(n)))

    # -- branching ----------------------------------------------------------------------------------------------------
    def branch(self, term, taken, vs):
        key = term.get_id()
        d = self.decided.get(key)
        if d is not None:
            return d[1]
        if z3.is_true(term):
            return True
        if z3.is_false(term):
            return False
        self.decided[key] = (term, taken)
        self.trace.append(Entry('b', term, taken, vs))
        self.stats['branches'] += 1
        return taken

    def fd_test(self, var, value, aset):
        """value of finite-domain var in aset?"""
        dom = self.dom[var]
        inter = dom & aset
        if not inter:
            return False
        if len(inter) == len(dom):
            return True
        taken = value in aset
        self.trace.append(Entry('f', None, taken, frozenset((var,)), var, inter))
        self.dom[var] = inter if taken else dom - inter
        self.stats['branches'] += 1
        return taken

    def pin_term(self, make, test, value):
        """Concretise to value; make(v) -> entry-producing test of 'is v'. Values explored earlier at this point are excluded first"""
        start = len(self.trace)
        hist = self.hist.get(start, ())
        for h in hist:
            make(h, test(h))
        at = len(self.trace)
        make(value, True)
        if len(self.trace) > at:
            self.trace[at].pin = (start, tuple(hist) + (value,))

    def pin_int(self, term, value, vs):
        now = term == value
        if now.get_id() in self.decided or z3.is_true(now):      # known already: adds nothing, and must not take the history of another pin
            return
        self.pin_term(lambda v, taken: self.branch(term == v, taken, vs), lambda v: v == value, value)

    def pin_fd(self, var, value):
        if len(self.dom[var]) == 1:
            return
        self.pin_term(lambda v, taken: self.fd_test(var, value, frozenset((v,))), lambda v: v == value, value)

    # -- assumptions and assertions --------------------------------------------------------------------------------------
    def assume(self, cond):
        if not cond:
            raise Abandon()

    def check(self, cond, message):
        self.stats['checks'] += 1
        if not cond:
            raise CheckFailed(message() if callable(message) else message)

    def fail(self, message):
        self.stats['checks'] += 1
        raise CheckFailed(message() if callable(message) else message)

    def reach(self, label='end'):
        """Reachability witness: the harness got to its assertions on this path"""
        self.reached.add(label)
        self.stats['witness'] += 1

    # -- expansion ----------------------------------------------------------------------------------------------------
    def expand(self, bound, expect=None, strata=0):
        """Children work items [(inputs, bound, expect)] for every feasible unexplored side"""
        trace = self.trace
        stats = self.stats
        if bound and (len(trace) < bound or (expect is not None and trace[bound - 1].taken != expect)):
            stats['divergences'] += 1
            if DEBUG_DIV:
                print('DIV', len(trace), bound, expect, self.inputs, [(t.kind, str(t.term)[:80], t.taken) for t in trace[max(0, bound - 2):bound]], flush=True)
            return []
        children = []
        relational = set()

        def hist_for(i, e):
            h = {k: v for k, v in self.hist.items() if k < i}
            if e.pin is not None:
                h[e.pin[0]] = e.pin[1]
            return h
        doms = dict(self.dom0)
        group = ()
        for i, e in enumerate(trace):
            if i >= bound:
                if e.kind == 'c':
                    for alt in range(e.n):
                        if alt != e.taken:
                            inp = dict(self.inputs)
                            inp[e.var] = alt
                            children.append((inp, i + 1, alt, hist_for(i, e), group + (alt,) if len(group) < strata else group))
                            stats['shape_forks'] += 1
                elif e.kind == 'f' or e.kind == 'b':
                    r = self._flip(i, e, relational, doms)
                    if r is not None:
                        children.append((r, i + 1, not e.taken, hist_for(i, e), group))
            if e.kind == 'c' and len(group) < strata:
                group += (e.taken,)
            if e.kind == 'f':
                doms[e.var] = e.aset if e.taken else doms[e.var] - e.aset
            elif e.kind == 'b' or e.kind == 'a':
                relational |= e.vs
        return children

    def _flip(self, i, e, relational, doms):
        stats = self.stats
        if e.kind == 'f' and e.var not in relational:
            stats['fd_decisions'] += 1
            value = fd_solve(doms[e.var], e.aset, e.taken, stats)
            if value is None:
                return None
            inp = dict(self.inputs)
            inp[e.var] = value
            return inp
        # slice the path condition to what shares variables with the flipped term
        vs = set(e.vs)
        picked = []
        changed = True
        pending = [t for t in self.trace[:i] if t.kind != 'c']
        while changed:
            changed = False
            rest = []
            for t in pending:
                if vs & t.vs:
                    picked.append(t)
                    if not t.vs <= vs:
                        vs |= t.vs
                        changed = True
                else:
                    rest.append(t)
            pending = rest
        terms = []
        for t in picked:
            if t.kind == 'f':
                continue
            terms.append(t.term if t.taken else z3.Not(t.term))
        for v in vs:
            if v in doms:
                d = doms[v]
                if e.kind == 'f' and v == e.var:
                    d = d - e.aset if e.taken else e.aset
                terms.append(set_term(v, d))
        if e.kind == 'b':
            terms.append(z3.Not(e.term) if e.taken else e.term)
        if e.prefer is not None:
            res = solve(terms + [int_var(n) == v for n, v in e.prefer if n in vs], vs, stats)
            if isinstance(res, dict):
                inp = dict(self.inputs)
                inp.update(res)
                return inp
        key = tuple(sorted(t.get_id() for t in terms))
        hit = _query_cache.get(key)
        if hit is not None:
            stats['z3_cached'] += 1
            res = hit[1]
        else:
            res = solve(terms, vs, stats)
            if len(_query_cache) > 100000:
                _query_cache.clear()
            _query_cache[key] = (terms, res)
        if res is None or res == 'unknown':
            return None
        inp = dict(self.inputs)
        inp.update(res)
        return inp


_fd_cache = {}


def fd_solve(dom, aset, taken, stats):
    """Z3's verdict on 'v in dom and v (not) in aset', one formula per pair of sets"""
    key = (dom, aset, taken)
    hit = _fd_cache.get(key, False)
    if hit is not False:
        stats['z3_cached'] += 1
        return hit
    if len(_fd_cache) > 50000:
        _fd_cache.clear()
    member = set_term('fd!', aset)
    rest = dom - aset if taken else dom & aset
    prefer = int_var('fd!') == (97 if 97 in rest else min(rest, default=0))
    r = solve([set_term('fd!', dom), z3.Not(member) if taken else member] + ([prefer] if rest else []), frozenset(('fd!',)), stats)
    value = r['fd!'] if isinstance(r, dict) else None
    _fd_cache[key] = value
    return value


def solve(terms, vs, stats):
    """dict of values, None when unsat, 'unknown'"""
    t0 = time.perf_counter()
    s = z3.SolverFor('QF_LIA') if False else z3.Solver()
    s.set('timeout', QUERY_TIMEOUT_MS)
    s.add(*terms)
    r = s.check()
    stats['z3_queries'] += 1
    if r == z3.sat:
        stats['z3_sat'] += 1
        m = s.model()
        res = {}
        for v in vs:
            val = m.eval(int_var(v), model_completion=True)
            res[v] = val.as_long()
    elif r == z3.unsat:
        stats['z3_unsat'] += 1
        res = None
    else:
        stats['z3_unknown'] += 1
        res = 'unknown'
    stats['z3_time'] += time.perf_counter() - t0
    return res


class ConcreteCtx:
    """Replay context: the same harness on plain values and the real, un-instrumented code"""
    symbolic = False

    def __init__(self, inputs, params):
        self.inputs = inputs
        self.params = params
        self.names = {}
        self.log = []
        self.reached = set()

    _name = Ctx._name

    def choice(self, name, n):
        name = self._name(name)
        if n == 1:
            return 0
        v = self.inputs.get(name, 0)
        return v if 0 <= v < n else 0

    def pick(self, name, options):
        return options[self.choice(name, len(options))]

    def flag(self, name):
        return self.choice(name, 2) == 1

    def int(self, name, lo, hi, default=None):
        name = self._name(name)
        v = self.inputs.get(name)
        if v is None or not lo <= v <= hi:
            v = default if default is not None else (0 if lo <= 0 <= hi else lo)
        return v

    def num(self, name, lo, hi, den=4):
        name = self._name(name)
        klo, khi = int(lo * den), int(hi * den)
        k = self.inputs.get(name)
        if k is None or not klo <= k <= khi:
            k = 0 if klo <= 0 <= khi else klo
        return k / den

    def char(self, name, domain):
        name = self._name(name)
        domain = frozenset(ord(c) if isinstance(c, str) else c for c in domain)
        v = self.inputs.get(name)
        if v is None or v not in domain:
            v = 97 if 97 in domain else min(domain)
        return chr(v)

    def str(self, name, n, domain):
        return ''.join(self.char(f'{name}.{i}', domain) for i in range(n))

    def assume(self, cond):
        if not cond:
            raise Abandon()

    def check(self, cond, message):
        if not cond:
            raise CheckFailed(message() if callable(message) else message)

    def fail(self, message):
        raise CheckFailed(message() if callable(message) else message)

    def reach(self, label='end'):
        self.reached.add(label)


__symx__ = True
