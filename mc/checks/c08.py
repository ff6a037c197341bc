"""C08: stiffness transforms correctly with the coordinate frame and units."""
import math
from types import SimpleNamespace

import numpy as np

from .. import common as cm, meshspace as ms, refmodel as rf
from ..impl import I

LEVEL = 'model_checking'
RULE = ('from every mesh state all words of transformations up to the depth bound (translations in plane and along z, '
        'rotations, reflections, scalings) are applied to mesh, laminates and displacements together; the matrices of the '
        'image must be those of the original transformed')
BOUNDS = {
    'quick': 'all states of 7 point sets x all words of length 1; the last (fullest) state of each point set x all '
             'words of length 2 over 16 generators; 2x3 lattice and large meshes with words of length 1; ' + cm.SCENETEXT,
    'thorough': 'all words of length <= 2 on all states of the 7 point sets, hexagon and 2x4 lattice with length 1, words of '
                'length 3 on one mesh per point set',
}
ASSUMPTIONS = ['transverse shear under general rotations is compared for laminates with equal stiffness in both directions '
               '(the coupling term is neglected by design)', 'edge-based shear excluded (recorded defect of C09 breaks it)',
               'no-smoothing shear under reflections excluded (the reference vertex depends on the orientation)']
SHEAR = cm.METHODS[:2]


def rot(deg):
    c, s = math.cos(math.radians(deg)), math.sin(math.radians(deg))
    if deg % 90 == 0:
        c, s = round(c), round(s)
    return np.array([[c, -s], [s, c]], float)


GENS = {
    'tx': dict(t=(3.25, 0.)), 'ty-': dict(t=(0., -7.5)), 'tfar': dict(t=(-40., 55.)), 'tz': dict(z=2.0), 'tz-': dict(z=-3.5),
    'r90': dict(Q=rot(90)), 'r180': dict(Q=rot(180)), 'r37': dict(Q=rot(37)), 'r-110': dict(Q=rot(-110)),
    'mx': dict(Q=np.diag([-1., 1.])), 'my': dict(Q=np.diag([1., -1.])), 's1000': dict(s=1000.), 's.02': dict(s=0.02), 's1e-5': dict(s=1e-5),
    's2e4': dict(s=2e4),
    'mdiag': dict(Q=np.array([[0., 1.], [1., 0.]])),
}


def strainmap(Q):
    """(exx, eyy, gxy) in the new frame from those in the old one"""
    T = np.zeros((3, 3))
    for j, E in enumerate(([[1, 0], [0, 0]], [[0, 0], [0, 1]], [[0, .5], [.5, 0]])):
        F = Q.dot(np.array(E, float)).dot(Q.T)
        T[:, j] = [F[0, 0], F[1, 1], 2*F[0, 1]]
    return T


def image_lam(p, Q, s, nice):
    Ti = np.linalg.inv(strainmap(Q))
    A, B, D = (Ti.T.dot(np.asarray(X)).dot(Ti) for X in (p.A, p.B, p.D))
    E = np.diag([p.scf_k13*p.E[0, 0], p.scf_k23*p.E[1, 1]])
    E2 = Q.dot(E).dot(Q.T)
    k13, k23 = p.scf_k13, p.scf_k23
    if nice and abs(Q[0, 0]) < 0.5:
        k13, k23 = k23, k13
    return rf.lam(A/s, B, D*s, np.diag([E2[0, 0]/k13, E2[1, 1]/k23])/s, p.h*s, k13, k23)


def compose(word):
    Q, s, t, z = np.eye(2), 1.0, np.zeros(2), 0.0
    for w in word:
        g = GENS[w]
        q, c = g.get('Q', np.eye(2)), g.get('s', 1.0)
        Q, t = q.dot(Q), c*q.dot(t) + np.array(g.get('t', (0., 0.)))
        z = c*z + g.get('z', 0.0)
        s *= c
    return Q, s, t, z


def blockmag(M):
    """Magnitude per pair of dof groups (in-plane, deflection, rotations): the
    frame mixes the dofs of a group."""
    dg = np.diag(M).reshape(-1, 5).copy()
    for cols in ([0, 1], [3, 4]):
        dg[:, cols] = dg[:, cols].max(axis=1)[:, None]
    dg = np.sqrt(dg.ravel())
    return np.outer(dg, dg)


def lams(k, count, iso):
    out = []
    for q in range(count):
        p = cm.gen((q + k) % 3)
        if iso:
            G = 0.5 + 0.2*((q+k) % 3)
            p = rf.lam(p.A, p.B, p.D, np.diag([G, G]), p.h, 0.8, 0.8)
        out.append(p)
    return out


def words(depth):
    out = [()]
    for _ in range(depth):
        out = [w + (g,) for w in out for g in sorted(GENS)]
    return out


def verify(ctx, m, k, nodal, wordlist, tag):
    n, T = len(m['pts']), len(m['tris'])
    g = rf.Geo(m)
    d = cm.dense_d(n, k)
    bases = {}
    for iso in (False, True):
        props = lams(k, n if nodal else T, iso)
        mesh = ms.build(I, m)
        cm.assign(mesh, props if nodal else None, None if nodal else props)
        bases[iso] = (cm.assemble(mesh, n, nodal, d, SHEAR), cm.magnitudes(g, props, nodal, d, SHEAR), props)
        ctx.trace()
    for word in wordlist:
        if not ctx.case(dict(tag, nodal=nodal, word=word)):
            continue
        ctx.trans(max(1, len(word)))
        Q, s, t, z = compose(word)
        nice = np.all((np.abs(Q) < 1e-12) | (np.abs(np.abs(Q)-1) < 1e-12))
        iso = not nice
        b, mag, props = bases[iso]
        xy = (s*Q.dot(g.xy.T)).T + t
        m2 = dict(m, pts=xy.tolist(), z=s*m['z'] + z)
        p2 = [image_lam(p, Q, s, nice) for p in props]
        mesh = ms.build(I, m2)
        cm.assign(mesh, p2 if nodal else None, None if nodal else p2)
        # old dofs -> new dofs
        R = np.zeros((5, 5))
        R[0:2, 0:2] = s*Q
        R[2, 2] = s
        R[3:5, 3:5] = Q
        W = np.kron(np.eye(n), R)
        skip = SHEAR[1:] if np.linalg.det(Q) < 0 else []
        got = cm.assemble(mesh, n, nodal, W.dot(d), [q for q in SHEAR if q not in skip])
        ctx.trace()
        far = 1 + np.abs(xy).max()/np.ptp(xy, axis=0).max() + np.abs(g.xy).max()/np.ptp(g.xy, axis=0).max()
        for q in got:
            X = W.T.dot(got[q]).dot(W)/s          # energy per length unit
            A = blockmag(mag[q])*far
            ctx.check(rf.close(X, b[q], A), '%s under %s: %s' % (q, '.'.join(word), rf.worst(X, b[q], A)))
        ctx.outcome((tag, word, nodal))


def plan(tier):
    u = []
    for ps in cm.SMALL:
        n = len(ms.families(ps)[0])
        if tier == 'thorough':
            u += [dict(kind='states', ps=ps, lo=lo, hi=hi, depths=[1, 2]) for lo, hi in cm.chunks(n, 2)]
            u += [dict(kind='states', ps=ps, lo=n-1, hi=n, depths=[3], first=f) for f in sorted(GENS)]
        else:
            u += [dict(kind='states', ps=ps, lo=lo, hi=hi, depths=[1]) for lo, hi in cm.chunks(n, 6)]
            u += [dict(kind='states', ps=ps, lo=n-1, hi=n, depths=[2])]
    u += cm.scene_units()
    n = len(ms.families('lat32')[0])
    u += [dict(kind='states', ps='lat32', lo=lo, hi=hi, depths=[1]) for lo, hi in cm.chunks(n, 12)]
    u += [dict(kind='big', names=[b], g=g) for b in ('grid44r', 'fan', 'ring', 'grid91') for g in range(3)]
    if tier == 'thorough':
        for ps in ('hexa', 'lat42'):
            n = len(ms.families(ps)[0])
            u += [dict(kind='states', ps=ps, lo=lo, hi=hi, depths=[1]) for lo, hi in cm.chunks(n, 12)]
    return u


def run(unit, ctx):
    if unit['kind'] == 'states':
        S = ms.families(unit['ps'])[0]
        wl = [w for q in unit['depths'] for w in words(q)]
        if 'first' in unit:
            wl = [w for w in wl if w[0] == unit['first']]
        for k in range(unit['lo'], min(unit['hi'], len(S))):
            mp = ['id', 'skew', 'neg', 'mirror', 'wobble'][k % 5]
            m = ms.desc(unit['ps'], S[k], mp, cm.ZS[k % 3], k % 12)
            ctx.state()
            for nodal in (True, False):
                verify(ctx, m, k, nodal, wl, dict(s=k))
    elif unit['kind'] == 'scene':
        for k, m, nodal, _, _, nm in cm.scenes(unit, ctx):
            if 'xyz' not in m:
                verify(ctx, m, k, nodal, words(1), dict(mesh=nm))
    else:
        for nm, m in cm.big_meshes(unit['names']):
            ctx.state()
            verify(ctx, m, 1, len(nm) % 2 == 0, words(1)[unit['g']::3], dict(mesh=nm))
