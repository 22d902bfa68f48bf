"""Where a chain of inexact double operations lands on the other side of an integer than the exact value: Z3's floating-point theory picks the input"""

import math
import signal
import z3

from . import core

TIMEOUT_MS = 20000
BITS = 14
MIN_VALUES = 512
MAX_VARS = 10
MAX_SEARCHES = 4
F64 = z3.Float64()
RNE = z3.RNE()
_cache = {}
_SKIP = object()


def linear(term, name, fixed=()):
    """(a, b) when term is a*var + b, the other variables being as in fixed"""
    if isinstance(term, int):
        return (0, term)
    var = core.int_var(name)
    if fixed:
        term = z3.substitute(term, *fixed)
    vals = []
    for k in (0, 1, 2):
        v = z3.simplify(z3.substitute(term, (var, z3.IntVal(k))))
        if not z3.is_int_value(v):
            return None
        vals.append(v.as_long())
    a = vals[1] - vals[0]
    if vals[2] - vals[1] != a:
        return None
    check = z3.simplify(z3.substitute(term, (var, z3.IntVal(1000003))))
    return (a, vals[0]) if z3.is_int_value(check) and check.as_long() == a * 1000003 + vals[0] else None


def leaves(tree, name, fixed):
    """The tree with the terms at its leaves as (a, b, denominator); None when one is not linear"""
    if tree[0] == 'c':
        return tree
    if tree[0] == 'n':
        ab = linear(tree[1], name, fixed)
        return None if ab is None else ('n',) + ab + (tree[2],)
    a, b = leaves(tree[1], name, fixed), leaves(tree[2], name, fixed)
    return None if a is None or b is None else (tree[0], a, b)


def encode(tree, k, base, step):
    op = tree[0]
    if op == 'c':
        return z3.FPVal(tree[1], F64)
    if op == 'n':
        x = signed(k, tree[1] * step, tree[1] * base + tree[2])
        return x if tree[3] == 1 else z3.fpDiv(RNE, x, z3.FPVal(float(tree[3]), F64))
    a, b = encode(tree[1], k, base, step), encode(tree[2], k, base, step)
    return {'+': z3.fpAdd, '-': z3.fpSub, '*': z3.fpMul, '/': z3.fpDiv}[op](RNE, a, b)


def signed(k, a, b):
    """The double a*k + b"""
    width = (abs(a) * 2 ** k.size() + abs(b)).bit_length() + 1
    return z3.fpSignedToFP(RNE, z3.ZeroExt(width - k.size(), k) * z3.BitVecVal(a, width) + z3.BitVecVal(b, width), F64)


def candidates(tree, num, den, names, bounds, inputs):
    """[(variable, value)] at which the floor of the double differs from the floor of num/den"""
    out = []
    for name in names:
        if name not in bounds or len(names) > MAX_VARS:
            continue
        fixed = [(core.int_var(n), z3.IntVal(inputs[n])) for n in names if n != name and n in inputs]
        ab, tr = linear(num, name, fixed), leaves(tree, name, fixed)
        if ab is None or ab[0] == 0 or tr is None:
            continue
        key = (ab, tr, den, bounds[name])
        if key not in _cache:
            if len(_cache) >= MAX_SEARCHES:
                continue
            _cache[key] = search(tr, ab, den, *bounds[name])
        if _cache[key] is not None:
            out.append((name, _cache[key]))
    return out


def search(tree, ab, den, lo, hi):
    if lo < -2 ** 40 or hi > 2 ** 40:
        return None
    # the values of the variable that make num/den an integer: base + step*k
    step = den // math.gcd(ab[0], den)
    first = next((r for r in range(min(step, 4096)) if (ab[0] * r + ab[1]) % den == 0), None)
    if first is None:
        return None
    base = first + step * max(0, -((first - max(lo, 0)) // step))
    if hi - base < step * MIN_VALUES:
        return None
    k = z3.BitVec('k!', max(1, min(BITS, ((hi - base) // step).bit_length() - 1)))
    fp = encode(tree, k, base, step)
    exact = signed(k, ab[0] * step // den, (ab[0] * base + ab[1]) // den)
    s = z3.SolverFor('QF_BVFP')
    s.set('timeout', TIMEOUT_MS)
    s.add(z3.Or(z3.fpLT(fp, exact), z3.fpGEQ(fp, z3.fpAdd(RNE, exact, z3.FPVal(1.0, F64)))))
    stats = core.CUR.stats
    stats['z3_queries'] += 1
    left = signal.setitimer(signal.ITIMER_REAL, 0)[0]       # the time of this query is not the path's
    try:
        found = s.check() == z3.sat
    finally:
        signal.setitimer(signal.ITIMER_REAL, left)
    if not found:
        return None
    stats['z3_sat'] += 1
    return base + step * s.model().eval(k, model_completion=True).as_long()
