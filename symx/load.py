"""Import the package under check from /repo, and (optionally) patch its
numpy/math references so that it can be executed symbolically."""
import builtins
import importlib
import os
import pkgutil
import sys
import types
import warnings

REPO = os.environ.get('MARXS_REPO', '/repo')
warnings.simplefilter('ignore')

if REPO not in sys.path:
    sys.path.insert(0, REPO)
os.environ.setdefault('MPLBACKEND', 'agg')
sys.dont_write_bytecode = True

SYMBOLIC = False
_orig_import = builtins.__import__


def target(modname):
    return modname.split('.')[0] in ('marxs', 'transforms3d') and '.tests' not in modname


def patch_module(mod):
    import numpy as np
    import math
    from . import npshim
    d = mod.__dict__
    for k, v in list(d.items()):
        if v is np:
            d[k] = npshim.shim
        elif v is np.linalg:
            d[k] = npshim.linalg
        elif v is np.random:
            d[k] = npshim.random
        elif v is math:
            d[k] = npshim.mathshim
        elif id(v) in npshim.SHIMMED and not isinstance(v, (int, float)):
            d[k] = npshim.SHIMMED[id(v)]
        elif getattr(v, '__self__', None) is np.random.mtrand._rand and callable(v):
            d[k] = getattr(npshim.random, v.__name__)


def sym_columns():
    """astropy Columns of reals that are created empty can hold symbolic values."""
    from astropy.table import Column
    from . import npshim
    new = Column.__new__

    def __new__(cls, data=None, name=None, dtype=None, shape=(), length=0, **kw):
        if data is None and length and npshim.is_float_dtype(dtype):
            c = new(cls, None, name, object, shape, length, **kw)
            c[...] = npshim.lift(0)
            return c
        return new(cls, data, name, dtype, shape, length, **kw)
    Column.__new__ = __new__


def _hook(name, globals=None, locals=None, fromlist=(), level=0):
    m = _orig_import(name, globals, locals, fromlist, level)
    if SYMBOLIC and globals is not None and level == 0 and \
            target(globals.get('__name__') or ''):
        import numpy as np
        import math
        from . import npshim
        if m is math:
            return npshim.mathshim
        if m is np:
            return npshim.shim
        if m is np.random:
            return npshim.random
        if m is np.linalg:
            return npshim.linalg
    return m


def preload():
    """Import the whole package with the real numpy first."""
    import transforms3d
    import marxs
    import transforms3d.affines, transforms3d.euler, transforms3d.axangles, \
        transforms3d.utils, transforms3d.quaternions, transforms3d.shears
    for n in ('base', 'simulator', 'math', 'source', 'optics', 'design', 'analysis',
              'reduction', 'utils', 'visualization'):
        try:
            importlib.import_module('marxs.' + n)
        except Exception:
            continue
    import pkgutil
    for m in list(pkgutil.walk_packages(marxs.__path__, 'marxs.', onerror=lambda n: None)):
        n = m.name
        if any(x in n for x in ('.tests', '.test', 'conftest', 'missions', 'mayavi',
                                'marx_build', 'optics.marx')) and 'marxs.optics.marx' != n:
            continue
        try:
            importlib.import_module(n)
        except Exception:
            pass
    quiet()


def quiet():
    warnings.resetwarnings()
    warnings.simplefilter('ignore')
    warnings.filterwarnings = lambda *a, **k: None
    warnings.warn = lambda *a, **k: None


def imp(name):
    """Import a marxs module by dotted name, patched if symbolic."""
    before = set(sys.modules)
    m = importlib.import_module(name)
    if SYMBOLIC:
        patch_all()
    return m


_patched = set()


def patch_all():
    for n in list(sys.modules):
        if n not in _patched and target(n) and sys.modules[n] is not None:
            if getattr(sys.modules[n], '__spec__', None) is not None and \
                    getattr(sys.modules[n].__spec__, '_initializing', False):
                continue
            _patched.add(n)
            patch_module(sys.modules[n])


def go_symbolic():
    global SYMBOLIC
    preload()
    from . import units
    units.install()
    sym_columns()
    SYMBOLIC = True
    builtins.__import__ = _hook
    patch_all()
