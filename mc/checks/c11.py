"""C11: shear stabilisation follows 1/(1 + alpha l^2/h^2) for every method."""
import itertools

import numpy as np

from .. import common as cm, meshspace as ms, refmodel as rf
from ..impl import I

LEVEL = 'model_checking'
RULE = ('grid of alpha x thickness pattern x length rule x method x source over mesh states in which every edge is longest '
        'in turn; entry-wise comparison with the definition, ratio to the unstabilised matrix on single domains, and the '
        'Loewner order between neighbouring alpha and thickness')
ALPHAS = [0, 0.0, 1e-8, 1e-5, 1e-3, 0.08, 0.1, 0.3, 0.5, 0.6, 1.0, 1, 2, 25.0, 1e3, np.float64(.08)]
HS = [1e-3, 0.05, 0.7, 3.0, 400.0]
BOUNDS = {
    'quick': '16 alphas x 5 thicknesses x 2 rules x 3 methods x 2 sources on all triangles of 8 shapes x 6 vertex orders and '
             'on all states of 5 point sets with heterogeneous thickness; ' + cm.SCENETEXT,
    'thorough': 'as quick with every combination on every state of the 5 point sets, 2x3 lattice and hexagon',
}
ASSUMPTIONS = ['alpha >= 0', 'edge-based increments may show the recorded defect KF-B of C09']

SHAPES = {
    'e12': [(0, 0), (5, 0), (1, 1)], 'e23': [(0, 0), (0.7, 0.2), (-3, 3)], 'e31': [(0, 0), (2, 2.5), (5, 0.5)],
    'eq': [(0, 0), (2, 0), (1, 3**0.5)], 'right': [(0, 0), (1, 0), (0, 1)], 'needle': [(0, 0), (30, 0), (14, 0.4)],
    'tiny': [(0, 0), (2e-3, 0), (5e-4, 1e-3)], 'huge': [(-500, 200), (900, -100), (50, 2000)],
}


def lam_h(p, h):
    return rf.lam(p.A, p.B, p.D, p.E, h, p.scf_k13, p.scf_k23)


def shear(mesh, n, nodal, method, alpha, area):
    S = np.zeros((5*n, 5*n))
    I.add_k0s(S, mesh, nodal, method, alpha=alpha, maxl_from_area=area)
    return rf.from_impl(S, cm.index_of(mesh, n))


def hpattern(count, k, h):
    return [lam_h(cm.gen((q+k) % 3), h*(1 + 0.9*((q*(k+1)) % 3))) for q in range(count)]


def single(ctx, pts, order, nodal):
    m = ms.make(pts, [order], 0.3)
    mesh = ms.build(I, m)
    a, b, c = (np.array(p, float) for p in pts)
    edges = [np.linalg.norm(a-b), np.linalg.norm(b-c), np.linalg.norm(c-a)]
    A = abs((b-a)[0]*(c-a)[1] - (b-a)[1]*(c-a)[0])/2
    for h in HS:
        p = lam_h(cm.gen(1), h)
        cm.assign(mesh, [p]*3 if nodal else None, None if nodal else [p])
        I.calc_k0(mesh, nodal)
        for method in cm.METHODS[:2]:
            K0 = shear(mesh, 3, nodal, method, 0, False)
            ctx.trace()
            ctx.check(np.abs(K0).max() > 0, 'no shear stiffness at all')
            for area in (False, True):
                l2 = A if area else max(edges)**2
                for al in ALPHAS:
                    K = shear(mesh, 3, nodal, method, al, area)
                    ctx.trace()
                    f = 1/(1 + al*l2/h**2)
                    ctx.check(np.all(np.abs(K - f*K0) <= 1e-10*f*np.abs(K0).max()),
                              '%s alpha=%s h=%s area=%s: factor %r instead of %r' % (
                                  method, al, h, area, float(np.trace(K)/np.trace(K0)), f))
                    ctx.outcome((method, area, al, h, round(f, 9)))


def loewner(ctx, small, large, what):
    """large - small must be positive semi-definite"""
    D = (large - small + (large - small).T)/2
    s = np.sqrt(np.maximum(np.diag(large), 0))
    s[s == 0] = 1
    ev = np.linalg.eigvalsh(D/np.outer(s, s))
    ctx.check(ev[0] >= -1e-8, 'energy grows with %s (eigenvalue %g)' % (what, ev[0]))


def family(ctx, m, k, nodal, every):
    n, T = len(m['pts']), len(m['tris'])
    mesh = ms.build(I, m)
    g = rf.Geo(m)
    L = max(g.length(*e) for e in g.edges)
    for hi, hr in enumerate((0.02, 0.3, 4.0)):
        if not every and (hi + k) % 3:
            continue
        props = hpattern(n if nodal else T, k, hr*L)
        thin = [lam_h(p, 0.5*p.h) for p in props]
        for method in cm.METHODS:
            for area in (False, True):
                prev = None
                flags = [(False, 0, np.False_), (True, 1, np.True_)][area]
                for q, al in enumerate([0, 0.08, 0.3, 0.6, 5.0]):
                    cm.assign(mesh, props if nodal else None, None if nodal else props)
                    if q == 0:
                        I.calc_k0(mesh, nodal)
                    # the flags in every form of a truth value
                    K = shear(mesh, n, [(False, 0, np.False_), (True, 1, np.True_)][nodal][(q + k) % 3], method,
                              al, flags[(q + hi) % 3])
                    ctx.trace()
                    if q in (0, 2, 3, 4) or every:
                        refs = [rf.k0s(g, props, nodal, method, al, area)]
                        if method == 'edge-based':
                            refs.append(rf.k0s(g, props, nodal, method, al, area, defect_B=True))
                        ctx.check(any(rf.close(K, R, A) for R, A in refs), '%s alpha=%s area=%s: %s' % (
                            method, al, area, rf.worst(K, *refs[0])))
                    if prev is not None:
                        loewner(ctx, K, prev, 'alpha')
                    if al == 0.3:
                        cm.assign(mesh, thin if nodal else None, None if nodal else thin)
                        K2 = shear(mesh, n, nodal, method, al, area)
                        ctx.trace()
                        loewner(ctx, K2, K, 'smaller thickness')
                    prev = K
                    ctx.outcome((method, area, al, round(float(np.trace(K)), 9)))


def plan(tier):
    u = [dict(kind='single', shape=s, nodal=nd) for s in sorted(SHAPES) for nd in (True, False)]
    for ps in cm.SMALL[:5]:
        n = len(ms.families(ps)[0])
        u += [dict(kind='fam', ps=ps, lo=lo, hi=hi, every=(tier == 'thorough')) for lo, hi in cm.chunks(n, 3)]
    if tier == 'thorough':
        for ps in ('lat32', 'hexa'):
            n = len(ms.families(ps)[0])
            u += [dict(kind='fam', ps=ps, lo=lo, hi=hi, every=False) for lo, hi in cm.chunks(n, 12)]
    u += [dict(kind='big', names=[b]) for b in ('grid44r', 'fan', 'ring')]
    u += cm.scene_units(2)
    return u


def run(unit, ctx):
    if unit['kind'] == 'single':
        for order in itertools.permutations(range(3)):
            if ctx.case(dict(shape=unit['shape'], order=order)):
                ctx.state()
                ctx.trans(len(ALPHAS)*len(HS))
                single(ctx, SHAPES[unit['shape']], list(order), unit['nodal'])
    elif unit['kind'] == 'scene':
        for k, m, nodal, _, _, _ in cm.scenes(unit, ctx):
            family(ctx, m, k, bool(nodal), False)
    elif unit['kind'] == 'fam':
        S = ms.families(unit['ps'])[0]
        for k in range(unit['lo'], min(unit['hi'], len(S))):
            for nodal in (True, False):
                for mp in (['skew', 'thin'] if unit['every'] else [['skew', 'thin', 'neg', 'wobble'][k % 4]]):
                    if ctx.case(dict(s=k, nodal=nodal, mp=mp)):
                        ctx.state()
                        ctx.trans(5)
                        family(ctx, ms.desc(unit['ps'], S[k], mp, cm.ZS[k % 3], k % 12), k, nodal, unit['every'])
    else:
        for nm, m in cm.big_meshes(unit['names']):
            for nodal in (True, False):
                if ctx.case(dict(mesh=nm, nodal=nodal)):
                    ctx.state()
                    family(ctx, m, 1, nodal, False)
