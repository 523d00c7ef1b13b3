"""Process set-up shared by every entry point: one numpy thread, no stale
bytecode, the package imported from the working tree under test."""
import os
import sys
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def boot():
    sys.dont_write_bytecode = True
    # a prefix that does not exist: cached bytecode is never read
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(),
                                      'dst-nopyc-%d' % os.getpid())
    for p in (HERE, REPO):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    import pandas  # noqa: F401  (imported before any fork)
    import scipy.special  # noqa: F401
    import maxlike
    import maxlike.func.tennis  # noqa: F401
    f = os.path.realpath(maxlike.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError('maxlike imported from %s, not from %s' % (f, REPO))
    import world
    world.setm(maxlike)
    import engine
    engine.instrument(os.path.join(os.path.realpath(REPO), 'maxlike') + os.sep)
    for k, m in list(sys.modules.items()):
        if k.split('.')[0] == 'maxlike' and 'id' not in vars(m):
            m.id = engine.IDS
    return maxlike
