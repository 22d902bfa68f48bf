"""Debug: where do concretisations come from? python3-vt pinprof.py C11 relops 2000"""
import sys, os, collections, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import importlib
from symx import core, env, pool, vals
sys.setrecursionlimit(8000)
bs = env.load_symbolic()
mod = importlib.import_module('props.' + sys.argv[1].lower())
h = next(h for h in mod.HARNESSES if h.name == sys.argv[2])
cnt = collections.Counter()
orig = core.Ctx.pin_term
def pt(self, make, test, value):
    f = sys._getframe(1); out = []
    n0 = len(self.trace)
    orig(self, make, test, value)
    if len(self.trace) > n0:
        while f and len(out) < 5:
            fn = f.f_code.co_filename
            if not (fn.endswith('vals.py') and f.f_code.co_name in ('pin', 'pin_vars')) and not fn.endswith('core.py'):
                out.append(f'{os.path.basename(fn)}:{f.f_lineno}:{f.f_code.co_name}')
            f = f.f_back
        cnt[' < '.join(out)] += 1
core.Ctx.pin_term = pt
st = core.Stats(); items = [({}, 0, None, {}, ())]; rng = random.Random(1); n = 0
res = collections.Counter()
import time; t0 = time.time()
while items and n < int(sys.argv[3]):
    i = rng.randrange(len(items)); items[i], items[-1] = items[-1], items[i]
    s, m, c, ch = pool.run_path(h, h.quick, bs, items.pop(), st)
    res[(s, (m or '')[:100])] += 1
    items += ch; n += 1
print(n, 'paths', len(items), 'left', time.time() - t0, 's')
for k, v in res.most_common(8): print(v, k)
for k, v in cnt.most_common(15): print(v, k)
print(dict(st))
