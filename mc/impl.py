"""Loads the code under test from /repo's working tree (never from a copy,
never from byte code left behind by an earlier run)."""
import os
import sys
import types
import warnings

REPO = os.environ.get('MESHLESS_REPO', '/repo')   # override: development only


def load():
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    # third-party modules come from their own caches ...
    import numpy, scipy.spatial, scipy.sparse, scipy.linalg, sympy     # noqa: F401
    import pyNastran.bdf.bdf, composites.laminate                      # noqa: F401
    # ... but the code under test is always compiled from its source text
    sys.pycache_prefix = os.path.join('/tmp', 'mc_no_pycache_%d' % os.getpid())
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    # meshless/version.py is generated by the build and ignored by git
    if not os.path.exists(os.path.join(REPO, 'meshless', 'version.py')):
        m = types.ModuleType('meshless.version')
        m.__version__ = m.version = 'unbuilt'
        sys.modules['meshless.version'] = m
    import meshless
    here = os.path.realpath(os.path.dirname(meshless.__file__))
    want = os.path.realpath(os.path.join(REPO, 'meshless'))
    if here != want:
        raise RuntimeError('meshless imported from %s instead of %s' % (here, want))
    ns = types.SimpleNamespace()
    from meshless.espim import read_mesh as rm
    from meshless.espim.plate2d_calc_k0 import calc_k0
    from meshless.espim.plate2d_calc_kG import calc_kG
    from meshless.espim.plate2d_add_k0s import add_k0s
    from meshless.espim.classes import Edge, IntegrationPoint
    from meshless import interpolate, utils, logger, constants
    from meshless.dev import sympytools
    ns.read_mesh = rm.read_mesh
    ns.read_delaunay = rm.read_delaunay
    ns.calc_k0, ns.calc_kG, ns.add_k0s = calc_k0, calc_kG, add_k0s
    ns.Edge, ns.IntegrationPoint = Edge, IntegrationPoint
    ns.lag2, ns.lag3 = interpolate.interpolate_lagrange_2D, interpolate.interpolate_lagrange_3D
    ns.utils, ns.logger, ns.constants, ns.sy = utils, logger, constants, sympytools
    return ns


class _Lazy(object):
    _ns = None

    def __getattr__(self, name):
        if _Lazy._ns is None:
            _Lazy._ns = load()
        return getattr(_Lazy._ns, name)


I = _Lazy()
