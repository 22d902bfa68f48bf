"""Decide one property: python3-vt check.py C01 [--seconds N] [--harness NAME] [--procs N]"""

import argparse
import importlib
import json
import os
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
REPLAY_PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


def load_known(prop):
    """[(harness, message regex, what)] of listed findings of a property"""
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding='utf-8') as fh:
            for line in fh:
                m = re.match(r'^known: property=(\S+) harness=(\S+) match=/(.*)/ :: (.*)$', line.strip())
                if m and m.group(1) == prop:
                    out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def replay(path, limit):
    try:
        r = subprocess.run([REPLAY_PY, os.path.join(VERIF, 'replay.py'), path], capture_output=True, timeout=limit, check=False, cwd=VERIF)
    except subprocess.TimeoutExpired:
        return 'hang', ''
    out = r.stdout.decode('utf-8', 'replace')
    if r.returncode == 1 and 'FAILS:' in out:
        return 'fails', out
    if r.returncode == 0:
        return 'holds', out
    if r.returncode == 3:
        return 'abandoned', out
    return 'error', out + r.stderr.decode('utf-8', 'replace')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--seconds', type=float)
    ap.add_argument('--harness')
    ap.add_argument('--procs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--keep-going', action='store_true')
    args = ap.parse_args()
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.monotonic()

    from symx import core, env, pool
    prop = args.prop.upper()
    meta = importlib.util.spec_from_file_location('meta', os.path.join(VERIF, 'props', prop.lower() + '.py'))
    del meta
    out_dir = os.path.join(VERIF, 'out', prop)
    os.makedirs(out_dir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)

    violations = []
    known_hits = []
    spurious = []
    known = load_known(prop)
    try:
        bs = env.load_symbolic()
        mod = importlib.import_module('props.' + prop.lower())
        load_error = None
    except Exception as e:      # pylint: disable=broad-exception-caught
        load_error = e
        raise
    harnesses = [h for h in mod.HARNESSES if not args.harness or h.name in args.harness.split(',')]
    params = [h.quick if tier == 'quick' else h.thorough for h in harnesses]
    seconds = args.seconds or (getattr(mod, 'QUICK_SECONDS', 45) if tier == 'quick' else getattr(mod, 'THOROUGH_SECONDS', 600))
    counter = [0]
    tried = {}

    def on_cex(hix, status, message, inputs, tb):
        h = harnesses[hix]
        key = (h.name, status, message[:80])
        tried[key] = tried.get(key, 0) + 1
        if tried[key] > 4 or sum(tried.values()) > 60:
            return False
        counter[0] += 1
        path = os.path.join(out_dir, f'cex-{counter[0]}.json')
        with open(path, 'w', encoding='utf-8') as fh:
            json.dump({'property': prop, 'harness': h.name, 'params': params[hix], 'inputs': inputs, 'status': status,
                       'message': message, 'traceback': tb}, fh, indent=1)
        res, out = replay(path, pool.PATH_SECONDS + 10)
        if res == 'fails' or (res == 'hang' and status == 'hang' and not h.hang_ok):
            what = out.split('FAILS:', 1)[1].strip().split('\n')[0] if res == 'fails' else message
            for hn, rx, text in known:
                if hn == h.name and rx.search(what):
                    if text not in known_hits:
                        known_hits.append(text)
                        print(f'KNOWN-FINDING: property={prop} {text}', flush=True)
                    tried[key] = 0
                    return False
            violations.append({'harness': h.name, 'replay': path, 'message': what[:500]})
            print(f'[{h.name}] {what[:600]}')
            print(f'VIOLATION property={prop} replay={path}', flush=True)
            return not args.keep_going
        spurious.append({'harness': h.name, 'replay': path, 'message': message[:300], 'replay_result': res})
        print(f'[{h.name}] not reproduced on the real code ({res}): {message[:300]}', flush=True)
        if tb and os.environ.get('SYMX_DEBUG'):
            print(tb)
        return False

    ex = pool.Explorer(prop, harnesses, params, bs, seed, seconds, args.procs, on_cex)
    ex.run()
    wall = time.monotonic() - t0

    total = core.Stats()
    rows = []
    for i, h in enumerate(harnesses):
        s = ex.stats[i]
        total.merge(s)
        rows.append({
            'harness': h.name, 'bounds': h.bounds, 'params': params[i],
            'result': ('violated' if any(v['harness'] == h.name for v in violations) else
                       'all paths within the bounds explored, assertion unsatisfiable to violate' if ex.complete(i) and not s['z3_unknown'] and not s['divergences']
                       else 'bounded, not exhausted'),
            'exhausted': ex.complete(i), 'unexplored_frontier': ex.front[i].count + ex.dropped[i], 'paths': s['paths'],
            'branches': s['branches'], 'assertions_checked': s['checks'], 'reachability_witnesses': dict(sorted(ex.reach[i].items())),
            'z3_queries': s['z3_queries'], 'z3_sat': s['z3_sat'], 'z3_unsat': s['z3_unsat'], 'z3_unknown': s['z3_unknown'],
            'z3_cached': s['z3_cached'], 'z3_seconds': round(s['z3_time'], 2), 'finite_domain_decisions': s['fd_decisions'], 'shape_forks': s['shape_forks'],
            'abandoned_assumption': s['abandoned'], 'divergences': s['divergences'], 'path_timeouts': s['timeouts'], 'pins': s['pins'],
            'samples': ex.samples[i][:2]
        })
    vacuous = [r['harness'] for r in rows if r['paths'] and not r['reachability_witnesses'] and r['exhausted']
               and not any(v['harness'] == r['harness'] for v in violations)]
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'wall_s': round(wall, 2),
        'coverage': {
            'explanation': 'Concolic symbolic execution of the real Python source (instrumented from /repo on this run): every recorded '
                           'branch is negated and decided by Z3 (a membership formula on one character variable once per formula, then '
                           'from a cache; choices of shape are plain forks); every satisfiable side is executed; the harness assertion is part of the branch tree, so '
                           '"violated assertion" sides are solver queries too. Counterexamples are replayed on the un-instrumented code.',
            'functions_encoded': sorted(x for x in ex.executed if x.startswith('bare_script')),
            'stdlib_functions_encoded': sorted(x for x in ex.executed if not x.startswith(('bare_script', 'props'))),
            'bounds': getattr(mod, 'BOUNDS', ''), 'harnesses': rows, 'paths': total['paths'],
            'queries_discharged': total['z3_sat'] + total['z3_unsat'] + total['z3_cached'], 'queries_unknown': total['z3_unknown'],
            'finite_domain_decisions': total['fd_decisions'], 'shape_forks': total['shape_forks'], 'solver_seconds': round(total['z3_time'], 2),
            'harnesses_exhausted': sum(r['exhausted'] for r in rows), 'harnesses_total': len(rows),
            'vacuous_harnesses': vacuous, 'not_reproduced': spurious, 'known_findings_seen': known_hits
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
    }
    if violations:
        evidence['violations'] = len(violations)
        evidence['violation_details'] = violations
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w', encoding='utf-8') as fh:
        json.dump(evidence, fh, indent=1, default=str)
    for r in rows:
        print(f'{prop} {r["harness"]}: paths={r["paths"]} exhausted={r["exhausted"]} frontier={r["unexplored_frontier"]} '
              f'z3={r["z3_queries"]}({r["z3_seconds"]}s, {r["z3_unknown"]} unknown) fd={r["finite_domain_decisions"]} shapes={r["shape_forks"]} '
              f'abandoned={r["abandoned_assumption"]} div={r["divergences"]} pins={r["pins"]} reach={r["reachability_witnesses"]}')
    if vacuous:
        print('vacuous harness(es):', vacuous)
    print(f'{prop} {tier}: {"VIOLATED" if violations else "held on everything explored"}; {wall:.1f} s; spurious={len(spurious)}')
    return 1 if violations else 0


if __name__ == '__main__':
    sys.exit(main())
