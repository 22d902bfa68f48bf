"""Regenerate MANIFEST.json from the table below"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
NOTE = ('Bounded: for every path within the stated bounds the solver decides every branch, including the assertion; evidence says per '
        'harness whether the path tree was exhausted. Trusts Z3, the proxies/regex matcher (differentially tested) and the listed stubs; '
        'every alarm is replayed on the un-instrumented code.')
DONE = [p for p in (f'C{i:02d}' for i in range(1, 21)) if os.path.exists(os.path.join(HERE, 'props', p.lower() + '.py'))]
m = {
    'version': 1,
    'setup_cmd': 'python3-vt selftest.py',
    'checks': [{
        'property': p,
        'quick_cmd': f'python3-vt check.py {p}',
        'thorough_cmd': f'VERIF_TIER=thorough python3-vt check.py {p}',
        'technique': 'concolic symbolic execution of the real Python source, Z3 deciding every branch and assertion',
        'level': 'other',
        'level_note': NOTE,
    } for p in DONE],
    'not_applicable': [],
}
missing = [f'C{i:02d}' for i in range(1, 21) if f'C{i:02d}' not in DONE]
for p in missing:
    m['not_applicable'].append({'property': p, 'reason': 'check not built yet'})
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
