"""Debug: run one path of a harness symbolically with the given inputs: python3-vt dbg.py C11 indexof '{"..":1}' | cex.json"""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import importlib
from symx import core, env, pool
sys.setrecursionlimit(8000)
prop = sys.argv[1].lower()
bs = env.load_symbolic()
mod = importlib.import_module('props.' + prop)
if sys.argv[2].endswith('.json'):
    d = json.load(open(sys.argv[2])); name = d['harness']; inputs = d['inputs']
else:
    name = sys.argv[2]; inputs = json.loads(sys.argv[3]) if len(sys.argv) > 3 else {}
h = next(h for h in mod.HARNESSES if h.name == name)
import builtins
st = core.Stats()
if '--log' in sys.argv:
    orig = bs.runtime._script_function if False else None
status, message, ctx, children = pool.run_path(h, h.quick, bs, (inputs, 0, None, {}, ()), st)
print(status, message)
print(getattr(ctx, 'tb', ''))
print('trace', len(ctx.trace), 'children', len(children))
for i, e in enumerate(ctx.trace):
    print(i, e.kind, e.var or e.term, e.taken, sorted(e.aset) if e.aset else '', 'PIN' if e.pin else '')
