"""Replay a counterexample against the real, un-instrumented code of /repo.

usage: /opt/venv/bin/python /verif/replay.py FILE     exit 1 + FAILS line: the property is violated; 0: it holds; 3: not applicable
"""
import importlib
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    from symx import core, env
    with open(sys.argv[1], encoding='utf-8') as fh:
        data = json.load(fh)
    if '/opt/veriftools' in sys.prefix:
        sys.path.append(env.SITE)
    bs = env.load_real()
    mod = importlib.import_module('props.' + data['property'].lower())
    harness = next(h for h in mod.HARNESSES if h.name == data['harness'])
    ctx = core.ConcreteCtx(data['inputs'], data['params'])
    try:
        harness.fn(ctx, bs)
    except core.CheckFailed as e:
        print('FAILS:', e.message.encode('ascii', 'backslashreplace').decode())
        for line in getattr(ctx, 'log', []):
            print('  ', line)
        return 1
    except core.Abandon:
        print('ABANDONED')
        return 3
    except Exception as e:      # pylint: disable=broad-exception-caught
        print('FAILS: unexpected', type(e).__name__, str(e)[:300].encode('ascii', 'backslashreplace').decode())
        traceback.print_exc(file=sys.stdout)
        return 1
    print('HOLDS')
    return 0


if __name__ == '__main__':
    sys.exit(main())
