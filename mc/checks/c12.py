"""C12: geometric stiffness is the exact initial-stress matrix."""
import numpy as np

from .. import common as cm, meshspace as ms, refmodel as rf
from ..impl import I

LEVEL = 'model_checking'
RULE = ('every state of the mesh-building transition system is built for real; calc_kG is compared entry by entry '
        'with the reference definition for every unit displacement vector (small point sets) or for fixed dense '
        'displacement vectors, and checked for linearity, rigid motions and uniform membrane force')
BOUNDS = {
    'quick': '7 point sets completely x 9 maps, all 5n unit displacements in rotation of the maps; 2x3 lattice, hexagon '
             'and large meshes with dense displacements; both sources; 12 forms of the displacement array; ' + cm.SCENETEXT + '; ' + cm.LAMTEXT,
    'thorough': 'as quick with all unit displacements on all of them, 2x4 lattice, 3x3 lattice to 4 triangles',
}
ASSUMPTIONS = ['planar meshes with constant z', 'kG is linear in the displacements (checked)']


def plan(tier):
    u = cm.full_units(cm.SMALL, cm.MAPNAMES, size=10, units=(tier == 'thorough'))
    u += cm.cover_units('lat32', 12, units=True) + cm.cover_units('hexa', 30, units=(tier == 'thorough'))
    u += cm.full_units(cm.SMALL, ['skew'], size=5, units=True)
    u += [dict(kind='big', names=[n]) for n in sorted(cm.BIG)]
    u += cm.lam_units() + cm.scene_units(3)
    if tier == 'thorough':
        u += cm.cover_units('lat42', 30, units=False) + cm.cover_units('lat33', 60, maxtri=4, units=False)
    return u


def dense(n, k):
    i = np.arange(5*n)
    return np.sin(1.3*i + 0.7*k + 0.2)*(1 + (i % 5))*(0.3 + 0.1*((i//5) % 3))


class Sub(np.ndarray):
    pass


DFORMS = {
    'int': lambda d: np.round(d*7).astype(int), 'int32': lambda d: np.round(d*7).astype(np.int32),
    'float32': lambda d: d.astype(np.float32), 'strided': lambda d: np.repeat(d, 3)[::3], 'readonly': lambda d: d,
    'big-endian': lambda d: d.astype('>f8'), 'subclass': lambda d: d.view(Sub),
    'negative': lambda d: -np.abs(d), 'int8': lambda d: np.round(d*7).astype(np.int8), 'zero': lambda d: d*0,
    'reversed': lambda d: d[::-1].copy()[::-1], 'column': lambda d: np.column_stack([d*3, d])[:, 1],
}


def verify(ctx, m, k, nodal, units, props=None):
    n = len(m['pts'])
    mesh = ms.build(I, m)
    pn, pe = props or (cm.hetero(n, k), cm.hetero(len(m['tris']), k+1))
    cm.assign(mesh, pn if nodal or k % 3 == 0 else None, pe if not nodal or k % 3 == 0 else None)
    I.calc_k0(mesh, nodal)
    idx = cm.index_of(mesh, n)
    g = rf.Geo(m)
    props = pn if nodal else pe
    L = max(np.ptp(g.xy[:, 0]), np.ptp(g.xy[:, 1]))

    def call(d, form=None):
        d = rf.to_impl_vec(d, idx)
        if form:
            d = DFORMS[form](d)
            d.setflags(write=False)
        G = I.calc_kG(d, mesh, nodal)
        ctx.trace()
        if not ctx.check(getattr(G, 'shape', None) == (5*n, 5*n), 'wrong shape'):
            return np.zeros((5*n, 5*n))
        return rf.from_impl(G, idx)

    def against(d, what):
        G = call(d)
        R, Ra = rf.kG(g, props, nodal, d)
        ctx.check(rf.close(G, R, Ra), 'kG differs for %s: %s' % (what, rf.worst(G, R, Ra)))
        ctx.check(np.all(np.abs(G-G.T) <= rf.RTOL*np.maximum(Ra, Ra.T)), 'kG not symmetric')
        mask = np.ones((5*n, 5*n), bool)
        mask[2::5, 2::5] = False
        ctx.check(not G[mask].any(), 'kG outside the w dofs')
        return G, Ra
    d1, d2 = dense(n, k), dense(n, k+11)
    G1, A1 = against(d1, 'dense displacement')
    ctx.outcome(np.round(np.diag(G1)/max(A1.max(), 1e-300), 6).tolist())
    G2, A2 = against(d2, 'dense displacement 2')
    G3 = call(2*d1 - 3*d2)
    ctx.check(rf.close(G3, 2*G1 - 3*G2, 2*A1 + 3*A2, 1e-9), 'kG is not linear in the displacements')
    form = sorted(DFORMS)[k % len(DFORMS)]
    df = DFORMS[form](d1)
    R, Ra = rf.kG(g, props, nodal, df.astype(float))
    ctx.check(rf.close(call(d1, form), R, Ra), 'kG differs for displacements given as %s array' % form)
    for s in (1e-12, 1e-20, 1e9):
        R, Ra = rf.kG(g, props, nodal, d1*s)
        ctx.check(rf.close(call(d1*s), R, Ra), 'kG differs for displacements times %g' % s)
    if units:
        for j in range(5*n):
            d = np.zeros(5*n)
            d[j] = 1.0
            against(d, 'unit displacement of node %d dof %d' % (j//5, j % 5))
    # rigid motions
    for nm, cols in (('u', (0, 1, 0)), ('v', (1, 1, 0)), ('w', (2, 1, 0))):
        d = np.zeros(5*n)
        d[cols[0]::5] = 0.37
        G = call(d)
        R, Ra = rf.kG(g, props, nodal, d)
        ctx.check(np.abs(G).max() <= 1e-9*max(Ra.max(), 1e-300), 'kG of rigid %s translation is not zero' % nm)
    d = np.zeros(5*n)
    d[0::5], d[1::5] = -g.xy[:, 1]/L, g.xy[:, 0]/L
    G = call(d)
    R, Ra = rf.kG(g, props, nodal, d)
    ctx.check(np.abs(G).max() <= 1e-9*Ra.max(), 'kG of a rigid rotation is not zero')
    # uniform membrane force
    p = cm.gen(k % 3)
    cm.assign(mesh, [p]*n, [p]*len(m['tris']))
    E = np.array([[0.3, -0.7, 0.45], [1.1, 0.2, -0.6]][k % 2])
    kap = np.array([0.4, -0.3, 0.9])/L
    x, y = (g.xy[:, 0]-g.xy[0, 0])/L, (g.xy[:, 1]-g.xy[0, 1])/L
    d = np.zeros(5*n)
    d[0::5], d[1::5] = E[0]*x + E[2]*y, E[1]*y
    d[3::5], d[4::5] = kap[0]*x, kap[2]*x + kap[1]*y
    G = call(d)
    N = p.A.dot(E/L) + p.B.dot(kap/L)
    area = sum(g.area)
    R, Ra = rf.kG(g, [p]*max(n, len(m['tris'])), nodal, d)
    for gw in ((1, 0), (0, 1), (1, 1), (2, -1)):
        w = np.zeros(5*n)
        w[2::5] = gw[0]*x + gw[1]*y
        want = area*(N[0]*gw[0]**2 + 2*N[2]*gw[0]*gw[1] + N[1]*gw[1]**2)/L/L
        got = w.dot(G).dot(w)
        ctx.check(abs(got-want) <= 1e-9*np.abs(w).dot(Ra).dot(np.abs(w)),
                  'uniform membrane force: %r instead of %r' % (got, want))


def run(unit, ctx):
    if unit['kind'] in ('full', 'cover'):
        for k, m in cm.states(unit, ctx):
            for nodal in (True, False):
                if ctx.case(dict(m=m, nodal=nodal, k=k)):
                    verify(ctx, m, k, nodal, unit['units'])
    elif unit['kind'] == 'scene':
        for k, m, nodal, pn, pe, _ in cm.scenes(unit, ctx):
            for form in range(len(DFORMS) if k % 11 == 0 else 1):
                verify(ctx, m, k + form, nodal, k % 11 == 0 and not form, (pn, pe))
    elif unit['kind'] in cm.LAMKINDS:
        for k, (m, nodal, pn, pe) in enumerate(cm.lam_cases(unit, ctx)):
            verify(ctx, m, k, nodal, False, (pn, pe))
    else:
        for nm, m in cm.big_meshes(unit['names']):
            for nodal in (True, False):
                if ctx.case(dict(mesh=nm, nodal=nodal)):
                    ctx.state()
                    verify(ctx, m, 2, nodal, False)
