"""C10: adding shear stiffness is in place, additive and dispatched by method name."""
import inspect
import itertools

import numpy as np

from .. import common as cm, meshspace as ms, refmodel as rf
from ..impl import I

LEVEL = 'model_checking'
RULE = ('all sequences of add_k0s calls up to the depth bound are executed on one accumulator and compared after every '
        'call with an accumulator model that adds the reference increment of the call')
CELL, NOSM, EDGE = cm.METHODS
CALLS = {
    'default': ((), {}, CELL, 0.08, False),
    'cell': ((CELL,), {}, CELL, 0.08, False),
    'cell kw': ((), dict(method=CELL, alpha=0.3), CELL, 0.3, False),
    'nosm': ((NOSM,), {}, NOSM, 0.08, False),
    'nosm pos': ((NOSM, 0.2, True), {}, NOSM, 0.2, True),
    'edge': ((), dict(method=EDGE), EDGE, 0.08, False),
    'edge area': ((EDGE,), dict(maxl_from_area=True), EDGE, 0.08, True),
    'cell area': ((), dict(maxl_from_area=True), CELL, 0.08, True),
    'cell alpha0': ((), dict(alpha=0), CELL, 0., False),
}
BAD = ['', 'cell', 'edge', 'Cell-based', 'cell_based', 'cell-based ', ' edge-based', 'EDGE-BASED', 'edge based', 'edge_based',
       'cell-based-nosmoothing', 'cell-based-no-smoothin', 'cell-based-no-smoothing-', 'cell-based-no_smoothing',
       'node-based', 'no-smoothing', 'edge-base', 'cell-base', 'ell-based', 'cell-basedd', 'cell-based-no-smoothing-edge-based']
INITS = ['zero', 'k0', 'random', 'fortran', 'strided', 'huge', 'float32', 'complex', 'object', 'matrix', 'bigend', 'subclass']
BOUNDS = {
    'quick': 'all sequences of up to 3 calls over 9 call styles (plus refused calls at every position of length 2 '
             'sequences) x 2 sources on 2 meshes, all single and double calls x 12 initial matrices x 5 meshes, 21 bad method names; every call once on large meshes and on ' + cm.SCENETEXT,
    'thorough': 'all sequences of up to 4 calls',
}
ASSUMPTIONS = ['numpy arrays as accumulators (double, single, complex, object, other byte order, subclasses)', 'edge-based increments may show the recorded defect KF-B of C09']

MESHES = {
    'tri': lambda: ms.desc('tri', ms.families('tri')[0][0], 'skew', 0.4, 1),
    'kite': lambda: ms.desc('kite', ms.maximal('kite')[0], 'neg', 0.0, 3),
    'quad_c': lambda: ms.desc('quad_c', ms.maximal('quad_c')[-1], 'skew', -1.0, 4),
    'dart': lambda: ms.desc('dart', ms.maximal('dart')[-1], 'mirror', 0.0, 2),
    'ring': lambda: cm.BIG['ring'](),
}


def initial(kind, N, k0):
    q = np.arange(N*N).reshape(N, N)
    r = np.sin(0.37*q + 1)*3
    if kind == 'zero':
        return np.zeros((N, N))
    if kind == 'k0':
        return k0.copy()
    if kind == 'random':
        return r.copy()
    if kind == 'fortran':
        return np.asfortranarray(r)
    if kind == 'strided':
        return np.zeros((2*N, 3*N))[::2, 1::3]
    if kind == 'float32':
        return r.astype(np.float32)
    if kind == 'complex':
        return r + 1j*r.T
    if kind == 'object':
        return r.astype(object)
    if kind == 'matrix':
        return np.matrix(r)
    if kind == 'bigend':
        return r.astype('>f8')
    if kind == 'subclass':
        return r.view(Sub)
    return r*1e6


class Sub(np.ndarray):
    pass


_prep = {}
SCENES = list(cm.scene_descs())


def prep(name, nodal):
    if (name, nodal) not in _prep:
        if isinstance(name, int):
            m = SCENES[name][1]
            pn = [cm.scene_lam(i, name) for i in range(len(m['pts']))]
            pe = [cm.scene_lam(i, name+1) for i in range(len(m['tris']))]
        else:
            m = MESHES[name]() if name in MESHES else cm.BIG[name]()
            pn, pe = cm.hetero(len(m['pts']), 2), cm.hetero(len(m['tris']), 1)
        n = len(m['pts'])
        mesh = ms.build(I, m)
        cm.assign(mesh, pn, pe)
        k0 = np.array(I.calc_k0(mesh, nodal))
        idx = cm.index_of(mesh, n)
        dofs = np.concatenate([5*q + np.arange(5) for q in idx])
        g = rf.Geo(m)
        inc = {}
        for c, (a, kw, method, alpha, area) in CALLS.items():
            lst = []
            for defect in (False, True):
                R, A = rf.k0s(g, pn if nodal else pe, nodal, method, alpha, area, defect_B=defect)
                X, Y = np.zeros_like(R), np.zeros_like(A)
                X[np.ix_(dofs, dofs)], Y[np.ix_(dofs, dofs)] = R, A
                lst.append((X, Y))
            inc[c] = lst
        _prep[name, nodal] = (mesh, n, k0, inc)
    return _prep[name, nodal]


def sequence(ctx, name, nodal, seq, init):
    mesh, n, k0, inc = prep(name, nodal)
    K = initial(init, 5*n, k0)
    start = K.copy()
    eps = 2e-7 if K.dtype == np.float32 else 1e-14
    wide = complex if K.dtype == complex else float
    start_ = np.asarray(start).astype(wide)
    base = K.base
    around = base.copy() if init == 'strided' else None
    # the two hypotheses about the edge-based method must be consistent over the sequence
    sums = [np.zeros(start.shape) for _ in (0, 1)]
    mags = [np.zeros(start.shape) for _ in (0, 1)]
    for q, c in enumerate(seq):
        ctx.trans()
        if c.startswith('bad'):
            before = K.copy()
            try:
                I.add_k0s(K, mesh, nodal, BAD[int(c[3:])])
            except ValueError:
                ctx.check(np.array_equal(K, before), 'a refused call changed the matrix')
            except Exception as e:
                ctx.fail('method %r: %r instead of ValueError' % (BAD[int(c[3:])], e))
            else:
                ctx.fail('method %r was accepted' % (BAD[int(c[3:])],))
            continue
        args, kw = CALLS[c][:2]
        r = I.add_k0s(K, mesh, nodal, *args, **kw)
        ctx.trace()
        ctx.check(r is K, 'returns another object than the matrix given')
        ok = False
        for h in (0, 1):
            sums[h] += inc[c][h][0]
            mags[h] += inc[c][h][1]
            tol = rf.RTOL*mags[h] + eps*(q+4)*(np.abs(start_) + mags[h])*(1 if wide is float and K.dtype == np.float64 else 8)
            tol[mags[h] == 0] = 0
            ok |= bool(np.all(np.abs(np.asarray(K).astype(wide) - start_ - sums[h]) <= tol))
        ctx.check(ok, 'matrix after call %d of %s is not the start plus the increments' % (q+1, seq))
    if around is not None and K.base is base:
        mask = np.ones(base.shape, bool)
        mask[::2, 1::3] = False
        ctx.check(np.array_equal(base[mask], around[mask]), 'memory outside the matrix changed')
    ctx.outcome((name, nodal, seq, init))


def plan(tier):
    u = []
    depth = 3 if tier == 'quick' else 4
    for name in ('tri', 'kite'):
        for nodal in (True, False):
            for c in sorted(CALLS):
                u.append(dict(kind='seq', mesh=name, nodal=nodal, first=c, depth=depth))
    for name in sorted(MESHES):
        for nodal in (True, False):
            for init in INITS:
                u.append(dict(kind='init', mesh=name, nodal=nodal, init=init))
            u.append(dict(kind='bad', mesh=name, nodal=nodal))
    u += cm.scene_units() + [dict(kind='big', name=b) for b in sorted(cm.BIG)]
    u.append(dict(kind='dispatch'))
    return u


def run(unit, ctx):
    names = sorted(CALLS)
    if unit['kind'] == 'seq':
        for L in range(1, unit['depth']+1):
            for rest in itertools.product(names, repeat=L-1):
                seq = (unit['first'],) + rest
                if ctx.case(dict(seq=seq)):
                    ctx.state()
                    sequence(ctx, unit['mesh'], unit['nodal'], seq, INITS[sum(map(len, seq)) % 3])
    elif unit['kind'] == 'init':
        for L in (1, 2):
            for seq in itertools.product(names, repeat=L):
                if unit['mesh'] == 'ring' and L == 2 and seq[0] != seq[1]:
                    continue
                if ctx.case(dict(seq=seq)):
                    ctx.state()
                    sequence(ctx, unit['mesh'], unit['nodal'], seq, unit['init'])
    elif unit['kind'] in ('scene', 'big'):
        for q in [unit['name']] if unit['kind'] == 'big' else range(unit['lo'], min(unit['hi'], len(SCENES))):
            for nodal in (True, False):
                for k, c in enumerate(names):
                    if ctx.case(dict(mesh=q, nodal=nodal, call=c)):
                        ctx.state()
                        sequence(ctx, q, nodal, (c, names[k-1]), INITS[(k + (q if unit['kind'] == 'scene' else 0)) % len(INITS)])
                _prep.pop((q, nodal), None)
    elif unit['kind'] == 'bad':
        for b in range(len(BAD)):
            for seq in (('bad%d' % b,), ('default', 'bad%d' % b, 'edge')):
                if ctx.case(dict(seq=seq, name=repr(BAD[b]))):
                    ctx.state()
                    sequence(ctx, unit['mesh'], unit['nodal'], seq, INITS[b % len(INITS)])
    else:
        # the increments of the documented methods differ, so that a wrong dispatch shows
        for name in ('kite', 'quad_c'):
            if ctx.case(dict(mesh=name)):
                ctx.state()
                inc = prep(name, True)[3]
                for a, b in itertools.combinations([c for c in names if c not in ('cell', 'default')], 2):
                    ctx.check(np.abs(inc[a][0][0] - inc[b][0][0]).max() > 1e-3, 'test meshes do not tell %s from %s' % (a, b))
                    ctx.trace()
