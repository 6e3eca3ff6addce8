import importlib
import json
import os
import sys

from . import engine


def boot():
    """import sympy and the library under test from the working tree; nothing is created yet"""
    sys.path.insert(0, engine.REPO)
    sys.setrecursionlimit(3000)
    import sympy  # noqa
    import warnings
    warnings.simplefilter('ignore')
    from . import seams
    seams.before_import()
    import galgebra
    import pkgutil
    p = os.path.realpath(galgebra.__file__)
    if not p.startswith(os.path.realpath(engine.REPO) + os.sep):
        raise SystemExit('galgebra imported from %s, not %s' % (p, engine.REPO))
    for m in pkgutil.walk_packages(galgebra.__path__, 'galgebra.'):
        if m.name != 'galgebra.primer':
            importlib.import_module(m.name)


def load(pid):
    m = importlib.import_module('dst.' + pid.lower())
    return getattr(m, pid)()


def main(argv):
    if not argv:
        print(__doc__)
        return 2
    if argv[0] == 'setup':
        boot()
        print('setup: library imports from', engine.REPO)
        return 0
    if argv[0] == 'replay':
        boot()
        with open(argv[1]) as f:
            pid = json.load(f)['property']
        return engine.replay(load(pid), argv[1])
    if argv[0] == 'serve':
        boot()
        from . import server
        return server.serve()
    if argv[0] == 'selftest':
        boot()
        from . import selftest
        return selftest.main(argv[1:])
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    kw = {}
    rest = argv[1:]
    while rest:
        a = rest.pop(0)
        if a in ('quick', 'thorough'):
            tier = a
        elif a == '--runs':
            kw['runs'] = int(rest.pop(0))
        elif a == '--workers':
            kw['workers'] = int(rest.pop(0))
        elif a == '--cap':
            kw['cap'] = float(rest.pop(0))
        elif a == '--progress':
            kw['progress'] = True
        else:
            print('unknown argument', a)
            return 2
    seed = int(os.environ.get('VERIF_SEED', '1'))
    try:
        boot()
    except SystemExit:
        raise
    return engine.check(load(pid), seed, tier, **kw)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
