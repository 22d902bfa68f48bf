"""The code under test: instrumented (symbolic runs) or as it is (replay)."""

import os
import sys
import types

REPO = os.environ.get('SYMX_REPO', '/repo')
SITE = '/opt/venv/lib/python3.12/site-packages'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODS = ('value', 'options', 'parser', 'model', 'data', 'library', 'runtime', 'bare')


def namespace():
    import importlib
    ns = types.SimpleNamespace()
    importlib.import_module('bare_script')
    for m in MODS:
        setattr(ns, m, importlib.import_module('bare_script.' + m))
    ns.src = os.path.join(REPO, 'src', 'bare_script')
    return ns


def stdlib_files():
    """Pure-Python stdlib modules instrumented along with the code (their C accelerators are switched off)"""
    import csv
    import json
    d = os.path.dirname(json.__file__)
    return {'json': os.path.join(d, '__init__.py'), 'json.encoder': os.path.join(d, 'encoder.py'),
            'json.decoder': os.path.join(d, 'decoder.py'), 'json.scanner': os.path.join(d, 'scanner.py'), 'csv': csv.__file__}


HIDDEN = ('_json',)
STANDINS = ('_csv',)


def load_symbolic():
    from . import instr, dec, zone, paths, csvmodel
    dec.install()
    zone.install()
    paths.install()
    csvmodel.install()
    src = os.path.join(REPO, 'src', 'bare_script')
    if SITE not in sys.path:
        sys.path.append(SITE)
    sys.path.insert(0, VERIF)
    files = stdlib_files()
    props = os.path.join(VERIF, 'props')
    import schema_markdown      # pylint: disable=unused-import,import-outside-toplevel
    for m in list(sys.modules):
        if m == 'bare_script' or m.startswith('bare_script.'):
            del sys.modules[m]
    saved = {m: sys.modules.pop(m) for m in list(sys.modules) if m in files or m in HIDDEN or m in STANDINS}
    for m in HIDDEN:
        sys.modules[m] = None
    sys.modules['_csv'] = csvmodel.standin()
    sys.meta_path.insert(0, instr.Finder({'bare_script': src, 'props': props}, files))
    try:
        ns = namespace()
    finally:
        for m in list(sys.modules):
            if m in files or m in HIDDEN or m in STANDINS:
                del sys.modules[m]
        sys.modules.update(saved)
        sys.meta_path[0].extra = {}
    return ns


def load_real():
    sys.path.insert(0, os.path.join(REPO, 'src'))
    sys.path.insert(1, VERIF)
    return namespace()
