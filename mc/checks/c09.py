"""C09: transverse shear stiffness equals the discrete-shear-gap definition."""
import itertools

import numpy as np

from .. import common as cm, meshspace as ms, refmodel as rf
from ..impl import I

LEVEL = 'model_checking'
METHODS = ['cell-based', 'cell-based-no-smoothing', 'edge-based']
RULE = ('every state of the mesh-building transition system is built for real, add_k0s is run with each method '
        'on a zero matrix and compared entry by entry with the reference definition; then rigid motions and '
        'constant shear fields are applied to the implementation\'s own matrix')
BOUNDS = {
    'quick': '7 point sets (3-5 points) completely x 9 maps x 3 methods x both sources; all states of the 2x3 lattice '
             'and the hexagon with centre; large meshes; all vertex orders of two-triangle meshes; ' + cm.SCENETEXT + '; ' + cm.LAMTEXT,
    'thorough': 'as quick plus 2x4 lattice, 3x3 lattice to 4 triangles, full 3x3 triangulations, all vertex orders of 3 triangles',
}
ASSUMPTIONS = ['planar meshes with constant z', 'E[0, 1] = 0 (the coupling term is neglected by design in all but the '
               'interior edges of the edge-based method)',
               'KF-B: interior edges of the edge-based method are compared with the definition and, failing '
               'that, with the exact known defect']


def plan(tier):
    u = cm.full_units(cm.SMALL, cm.MAPNAMES, size=15)
    u += cm.cover_units('lat32', 24) + cm.cover_units('hexa', 30)
    u += [dict(kind='big', names=[n]) for n in sorted(cm.BIG)]
    u += [dict(kind='orders', ps='kite', i=i) for i in range(6)]
    u += cm.lam_units() + cm.scene_units()
    if tier == 'thorough':
        u += cm.cover_units('lat42', 30) + cm.cover_units('lat33', 60, maxtri=4)
        u += [dict(kind='max', lo=lo, hi=hi) for lo, hi in cm.chunks(64, 8)]
        u += cm.full_units(['lat32', 'hexa'], ['skew', 'big', 'thin'], size=40)
        u += [dict(kind='orders', ps='dart', i=i) for i in range(6)]
    return u


def shear(ctx, mesh, m, nodal, method, **kw):
    n = len(m['pts'])
    k = np.zeros((5*n, 5*n))
    r = I.add_k0s(k, mesh, nodal, method, **kw)
    ctx.trace()
    ctx.check(r is k, 'the matrix given is not returned')
    return rf.from_impl(k, cm.index_of(mesh, n))


def against_model(ctx, K, m, g, props, nodal, method, **kw):
    R, Ra = rf.k0s(g, props, nodal, method, **kw)
    if rf.close(K, R, Ra):
        ctx.count('equal_to_definition')
        return R, Ra, True
    if method == 'edge-based':
        Rd, Rda = rf.k0s(g, props, nodal, method, defect_B=True, **kw)
        if not rf.close(R, Rd, np.maximum(Ra, Rda)) and rf.close(K, Rd, Rda):
            ctx.known_or_fail('KF-B', 'edge-based shear: ' + rf.worst(K, R, Ra))
            ctx.count('equal_to_known_defect')
            return Rd, Rda, False
        ctx.fail('%s shear differs from the definition (%s) and from the known defect (%s)' % (
            method, rf.worst(K, R, Ra), rf.worst(K, Rd, Rda)))
        return R, Ra, False
    ctx.fail('%s shear differs from the definition: %s' % (method, rf.worst(K, R, Ra)))
    return R, Ra, False


def invariants(ctx, K, Ra, m, g, props, nodal, method, exact, alpha):
    n = g.n
    ctx.check(np.all(np.abs(K - K.T) <= rf.RTOL*np.maximum(Ra, Ra.T)), 'not symmetric')
    for a in (0, 1):
        w = np.arange(a, 5*n, 5)
        ctx.check(not K[w].any() and not K[:, w].any(), 'shear stiffness on in-plane dofs')
    dg = np.diag(Ra)
    sc = np.sqrt(np.where(dg > 0, dg, 1))
    ev = np.linalg.eigvalsh((K+K.T)/2/np.outer(sc, sc))
    ctx.check(ev[0] > -1e-9, 'not positive semi-definite', eig=float(ev[0]))
    if not exact:
        return
    x, y = g.xy[:, 0], g.xy[:, 1]
    used = sorted(set(v for t in m['tris'] for v in t))
    x0, y0 = x[used[0]], y[used[0]]
    L = max(np.ptp(x), np.ptp(y))

    def field(w, px, py):
        d = np.zeros(5*n)
        d[2::5], d[3::5], d[4::5] = w, px, py
        return d
    fields = {'w=1': field(1, 0, 0),
              'tilt x': field(-(x-x0), 1, 0), 'tilt y': field(-(y-y0), 0, 1)}
    for nm, d in fields.items():
        mag = Ra.dot(np.abs(d)).max()
        ctx.check(np.abs(K.dot(d)).max() <= 1e-9*mag, 'rigid motion %s has forces' % nm)
    for nm, d, gam in (('gxz', field(x-x0, 0, 0), (1, 0)), ('gyz', field(y-y0, 0, 0), (0, 1)),
                       ('gxz by rotation', field(0, 1, 0), (1, 0)), ('gyz by rotation', field(0, 0, 1), (0, 1)),
                       ('both', field(2*(x-x0), 0, -3), (2, -3))):
        want = 0.0
        gam = np.array(gam, float)
        if method == 'edge-based':
            doms = [(sum(g.area[t] for t in ts)/3, g.edge_prop(e, props, nodal), dom_len(g, e))
                    for e, ts in g.edges.items()]
        else:
            doms = [(g.area[t], g.tri_prop(t, props, nodal),
                     max(g.length(a, b) for a, b in itertools.combinations(g.tris[t], 2)))
                    for t in range(len(g.tris))]
        for A, p, l in doms:
            C = np.diag([p.scf_k13*p.E[0, 0], p.scf_k23*p.E[1, 1]])/(1+alpha*l*l/p.h**2)
            want += A*gam.dot(C).dot(gam)
        got = d.dot(K).dot(d)
        ctx.check(abs(got-want) <= 1e-9*np.abs(d).dot(Ra).dot(np.abs(d)),
                  'constant shear %s: energy %r instead of %r' % (nm, got, want))


def dom_len(g, e):
    ts = g.edges[e]
    return max([np.hypot(*(g.cent[t]-g.xy[v])) for t in ts for v in e] + [g.length(*e)])


def verify(ctx, m, k, nodal, methods=METHODS, both=True, props=None, **kw):
    mesh = ms.build(I, m)
    n = len(m['pts'])
    pn, pe = props or (cm.hetero(n, k), cm.hetero(len(m['tris']), k+1))
    cm.assign(mesh, pn if nodal or both else None, pe if not nodal or both else None)
    I.calc_k0(mesh, nodal)
    props = pn if nodal else pe
    g = rf.Geo(m)
    for method in methods:
        K = shear(ctx, mesh, m, nodal, method, **kw)
        R, Ra, exact = against_model(ctx, K, m, g, props, nodal, method, **kw)
        invariants(ctx, K, Ra, m, g, props, nodal, method, exact, kw.get('alpha', 0.08))
        ctx.outcome((method, np.round(np.diag(K)/max(Ra.max(), 1e-300), 6).tolist()))


def run(unit, ctx):
    kind = unit['kind']
    if kind in ('full', 'cover'):
        for k, m in cm.states(unit, ctx):
            for nodal in (True, False):
                if ctx.case(dict(m=m, nodal=nodal, k=k)):
                    verify(ctx, m, k, nodal, both=(k % 3 == 0))
    elif kind == 'big':
        for nm, m in cm.big_meshes(unit['names']):
            for nodal in (True, False):
                if ctx.case(dict(mesh=nm, nodal=nodal)):
                    ctx.state()
                    verify(ctx, m, 3, nodal)
    elif kind in cm.LAMKINDS:
        for m, nodal, pn, pe in cm.lam_cases(unit, ctx):
            verify(ctx, m, 0, nodal, both=False, props=(pn, pe))
    elif kind == 'scene':
        for k, m, nodal, pn, pe, _ in cm.scenes(unit, ctx):
            verify(ctx, m, k, nodal, both=(k % 3 == 0), props=(pn, pe))
    elif kind == 'orders':
        sts, _ = ms.families(unit['ps'])
        tris = [s for s in sts if len(s) == 2][0] if unit['ps'] == 'kite' else sts[-1]
        for combo in itertools.product(range(6), repeat=len(tris)-1):
            combo = (unit['i'],) + combo
            for perm in itertools.permutations(range(len(tris))):
                for nodal in (True, False):
                    if not ctx.case(dict(combo=combo, perm=perm, nodal=nodal)):
                        continue
                    ctx.state()
                    tt = [[tris[q][v] for v in ms.VERTEX_ORDERS[combo[q]]] for q in perm]
                    m = ms.make(ms.mapped(ms.POINTSETS[unit['ps']], 'neg'), tt, -1.0)
                    verify(ctx, m, sum(combo), nodal)
    elif kind == 'max':
        full = ms.maximal('lat33')
        for q in range(unit['lo'], min(unit['hi'], len(full))):
            if ctx.case(dict(q=q)):
                ctx.state()
                m = cm.relabel(ms.desc('lat33', full[q], cm.MAPNAMES[q % 9], 0.0, q), cm.rotperm(9, q))
                verify(ctx, m, q, bool(q % 2))
