"""Regenerates the tables at the end of DESIGN.md from the property modules, seeded/ and caught.json"""

import importlib
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
MARK = '<!-- generated by gen_design.py: do not edit below -->\n'


def cell(x):
    return str(x).replace('|', '\\|').replace('\n', ' ')


def main():
    path = os.path.join(HERE, 'DESIGN.md')
    with open(path, encoding='utf-8') as f:
        head = f.read().split(MARK)[0].rstrip('\n')
    out = ['## Harnesses, bounds, assumptions', '']
    for i in range(1, 21):
        pid = f'C{i:02d}'
        m = importlib.import_module(f'props.c{i:02d}')
        out += [f'### {pid} - {m.__doc__.splitlines()[0]}', '', f'Bounds: {m.BOUNDS}.' if getattr(m, 'BOUNDS', None) else '', '']
        if getattr(m, 'ASSUMPTIONS', None):
            out += ['Assumptions: ' + '; '.join(m.ASSUMPTIONS) + '.', '']
        out += ['| harness | what | bounds | quick | thorough | order |', '|---|---|---|---|---|---|']
        for h in m.HARNESSES:
            doc = (h.fn.__doc__ or '').strip().splitlines()
            quick = ', '.join(f'{k}={v}' for k, v in h.quick.items() if not isinstance(v, tuple))
            thorough = ', '.join(f'{k}={v}' for k, v in {**h.quick, **h.thorough}.items() if not isinstance(v, tuple))
            out.append('| ' + ' | '.join(cell(x) for x in (h.name, doc[0] if doc else '', h.bounds or '', quick, thorough, h.order)) + ' |')
        out.append('')
    caught = {}
    cpath = os.path.join(HERE, 'caught.json')
    if os.path.exists(cpath):
        with open(cpath, encoding='utf-8') as f:
            caught = json.load(f)
    out += ['## Planted bugs and the harness that catches each', '', '| bug | property | needs | caught by (quick check) |', '|---|---|---|---|']
    seeded = os.path.join(HERE, 'seeded')
    for name in sorted(os.listdir(seeded)):
        with open(os.path.join(seeded, name, 'meta.json'), encoding='utf-8') as f:
            meta = json.load(f)
        out.append('| ' + ' | '.join(cell(x) for x in (name, meta['property'], meta['needs'], caught.get(name, '-'))) + ' |')
    with open(path, 'w', encoding='utf-8') as f:
        f.write(head + '\n\n' + MARK + '\n' + '\n'.join(out) + '\n')


if __name__ == '__main__':
    main()
