"""C05: patch test and null space of the constitutive stiffness."""
import numpy as np

from .. import common as cm, meshspace as ms, refmodel as rf
from ..impl import I

LEVEL = 'model_checking'
RULE = ('every state of the mesh-building transition system is built for real with one laminate everywhere; the 12 '
        'linear basis fields are applied to the real stiffness: energy matrix and nodal forces are compared with '
        'hand integrals over triangles and boundary edges, and the rank of the in-plane/rotation part is computed')
BOUNDS = {
    'quick': '7 point sets completely x 9 maps, all states of the 2x3 lattice and the hexagon, large meshes; both sources; all 64 '
             'sets of terms of A, B and D, special laminates, every two terms of a block equal or opposite; ' + cm.SCENETEXT,
    'thorough': 'as quick plus 2x4 lattice, 3x3 lattice to 4 triangles and its full triangulations',
}
ASSUMPTIONS = ['planar meshes with constant z', 'one laminate per mesh (the heterogeneous case is C04)', 'the rank is computed for positive definite laminates only']


def plan(tier):
    u = cm.full_units(cm.SMALL, cm.MAPNAMES, size=15)
    u += cm.cover_units('lat32', 24) + cm.cover_units('hexa', 30)
    u += [dict(kind='big', names=[n]) for n in sorted(cm.BIG)]
    u += cm.scene_units()
    u += [l for l in cm.lam_units() if l['kind'] in ('special', 'masked', 'pairs')]
    if tier == 'thorough':
        u += cm.cover_units('lat42', 30) + cm.cover_units('lat33', 60, maxtri=4)
        u += [dict(kind='max', lo=lo, hi=hi) for lo, hi in cm.chunks(64, 8)]
    return u


def verify(ctx, m, k, nodal, p=None):
    n = len(m['pts'])
    mesh = ms.build(I, m)
    spd = p is None
    p = p or cm.gen(k % 3)
    cm.assign(mesh, [p]*n, [p]*len(m['tris']))
    K = I.calc_k0(mesh, nodal)
    ctx.trace()
    K = rf.from_impl(K, cm.index_of(mesh, n))
    g = rf.Geo(m)
    _, Ra = rf.k0(g, [p]*max(n, len(m['tris'])), nodal)
    area = sum(g.area)
    L = max(np.ptp(g.xy[:, 0]), np.ptp(g.xy[:, 1]))
    c0 = g.xy[m['tris'][0][0]]
    x, y = (g.xy[:, 0]-c0[0])/L, (g.xy[:, 1]-c0[1])/L
    C = np.block([[p.A, p.B], [p.B, p.D]])
    # basis: field of dof q equal to 1, x, y; generalised strains (exx, eyy, gxy, kxx, kyy, kxy)
    basis = []
    for q, row in ((0, {'x': 0, 'y': 2}), (1, {'x': 2, 'y': 1}), (3, {'x': 3, 'y': 5}), (4, {'x': 5, 'y': 4})):
        for fn, f in (('1', np.ones(n)), ('x', x), ('y', y)):
            d = np.zeros(5*n)
            d[q::5] = f
            s = np.zeros(6)
            if fn != '1':
                s[row[fn]] = 1/L
            basis.append(('dof %d = %s' % (q, fn), d, s))
    V = np.array([b[1] for b in basis]).T
    S = np.array([b[2] for b in basis])
    En = V.T.dot(K).dot(V)
    Ena = np.abs(V).T.dot(Ra).dot(np.abs(V))
    want = area*S.dot(C).dot(S.T)
    bad = np.abs(En-want) > 1e-9*Ena
    ctx.check(not bad.any(), 'energy of linear fields', where=np.argwhere(bad)[:3].tolist(),
              got=En[bad][:3].tolist(), expected=want[bad][:3].tolist())
    # forces: consistent boundary tractions
    F = K.dot(V)
    Fa = Ra.dot(np.abs(V))
    for q, (nm, d, s) in enumerate(basis):
        N = C.dot(s)
        R = np.zeros(5*n)
        for e, ts in g.edges.items():
            if len(ts) == 2:
                continue
            i, j = e
            o = [v for v in g.tris[ts[0]] if v not in e][0]
            t = g.xy[j]-g.xy[i]
            nrm = np.array([t[1], -t[0]])            # outward normal times length
            if nrm.dot(g.xy[o]-g.xy[i]) > 0:
                nrm = -nrm
            for v in e:
                R[5*v+0] += (N[0]*nrm[0] + N[2]*nrm[1])/2
                R[5*v+1] += (N[2]*nrm[0] + N[1]*nrm[1])/2
                R[5*v+3] += (N[3]*nrm[0] + N[5]*nrm[1])/2
                R[5*v+4] += (N[5]*nrm[0] + N[4]*nrm[1])/2
        b = np.abs(F[:, q]-R) > 1e-9*Fa[:, q]
        ctx.check(not b.any(), 'nodal forces of %s: node %s' % (nm, np.argwhere(b)[:1].tolist()))
    for nm, d in (('rotation in plane', V[:, 5-1]-0), ):
        pass
    rig = [V[:, 0], V[:, 3], V[:, 2] - V[:, 4], V[:, 6], V[:, 9], V[:, 8] - V[:, 10]]
    for q, d in enumerate(rig):
        ctx.check(np.abs(K.dot(d)).max() <= 1e-9*Ra.dot(np.abs(d)).max(), 'rigid motion %d has forces' % q)
    if spd and ms.edge_connected(m):
        used = sorted(set(v for t in m['tris'] for v in t))
        dofs = np.array([5*v+q for v in used for q in (0, 1, 3, 4)])
        Ks = K[np.ix_(dofs, dofs)]
        sc = np.sqrt(np.diag(Ks))
        if ctx.check(bool(np.all(sc > 0)), 'zero stiffness on a used dof'):
            ev = np.linalg.eigvalsh((Ks+Ks.T)/2/np.outer(sc, sc))
            nz = int((ev < 1e-7*ev[-1]).sum())
            ctx.count('rank_checks')
            ctx.check(nz == 6, '%d zero-energy in-plane/rotation modes instead of 6' % nz, ev=ev[:8].tolist())
    ctx.outcome(np.round(np.diag(En)/max(Ena.max(), 1e-300), 6).tolist())


def run(unit, ctx):
    if unit['kind'] in ('full', 'cover'):
        for k, m in cm.states(unit, ctx):
            nodal = bool(k % 2)
            if ctx.case(dict(m=m, nodal=nodal, k=k)):
                verify(ctx, m, k, nodal)
    elif unit['kind'] == 'scene':
        for k, m, nodal, _, _, _ in cm.scenes(unit, ctx):
            verify(ctx, m, k, nodal, cm.gen(k % 9))
    elif unit['kind'] in cm.LAMKINDS:
        m = list(cm.lam_meshes())[unit['mesh']][1]
        for k, (code, f) in enumerate(cm.lam_fields(unit)):
            if unit['kind'] == 'special' and not code.endswith('/0'):
                continue
            for nodal in (True, False):
                if ctx.case(dict(unit=unit, code=code, nodal=nodal)):
                    ctx.state()
                    verify(ctx, m, k, nodal, f(0))
    elif unit['kind'] == 'big':
        for nm, m in cm.big_meshes(unit['names']):
            for nodal in (True, False):
                if ctx.case(dict(mesh=nm, nodal=nodal)):
                    ctx.state()
                    verify(ctx, m, 1, nodal)
    else:
        full = ms.maximal('lat33')
        for q in range(unit['lo'], min(unit['hi'], len(full))):
            if ctx.case(dict(q=q)):
                ctx.state()
                verify(ctx, ms.desc('lat33', full[q], cm.MAPNAMES[q % 9], 0.0, q), q, bool(q % 2))
