"""C22: the complete analysis reproduces exact solutions on every mesh."""
import itertools
import os
import shutil
import tempfile

import numpy as np
import scipy.linalg

from .. import common as cm, meshspace as ms, refmodel as rf
from ..impl import I

LEVEL = 'model_checking'
RULE = ('all edge-connected triangulation states of the point sets and all diagonal patterns of grids x laminates x property '
        'sources x shear methods: read, assemble, load, solve; compared with the exact solution; buckling loads compared '
        'under changes of prestress, stiffness, units and numbering and with the reference model')
BOUNDS = {
    'quick': 'all connected states of 7 point sets (maps rotated) for 6 unit stress states each, 3 rotated shear states; all 2^4 '
             'and 2^6 diagonal patterns of 2 x 2 and 3 x 2 grids for buckling, both readers; all states in 6 other units of length (rotated with methods and options)',
    'thorough': 'as quick under 5 maps with every laminate, the 2 x 3 lattice, and all 2^9 patterns of the 3 x 3 grid',
}
ASSUMPTIONS = ['linear algebra of numpy/scipy is correct', 'homogeneous laminate where an exact solution is compared',
               'alpha = 0 where transverse shear is compared with the exact solution (otherwise the stabilised shear '
               'stiffness differs from element to element)']

MAPS = ['id', 'skew', 'neg', 'mirror', 'wobble']
LAMS = ['gen0', 'gen1', 'gen2', 'iso', 'sym', 'uns', 'angle', 'iso_off']


def laminate(name):
    if name.startswith('gen'):
        return cm.gen(int(name[3:]))
    return rf.real_laminate(name)


def deck(m, path):
    with open(path, 'w') as f:
        f.write('SOL 101\nCEND\nBEGIN BULK\nMAT1,1,71.+9,,.33\nPSHELL,1,1,.01\n')
        for i, p in enumerate(m['pts']):
            f.write('GRID*%19d%16s%16.9f%16.9f*\n*%23.9f\n' % (i+1, '', p[0], p[1], m.get('z', 0.)))
        for i, t in enumerate(m['tris']):
            f.write('CTRIA3,%d,1,%d,%d,%d\n' % (i+1, t[0]+1, t[1]+1, t[2]+1))
        f.write('ENDDATA\n')


def rounded(m):
    """the coordinates a deck with nine decimals carries"""
    return dict(m, pts=[[float('%.9f' % v) for v in p] for p in m['pts']])


def analysis(m, props, nodal, method=None, tmp=None, d=None, **kw):
    """K (k0 with shear) and optionally kG, in model node order."""
    if tmp:
        path = os.path.join(tmp, 'deck.dat')
        deck(m, path)
        mesh = I.read_mesh(path)
    else:
        mesh = ms.build(I, m)
    n = len(m['pts'])
    cm.assign(mesh, props if nodal else None, None if nodal else props)
    K = np.array(I.calc_k0(mesh, nodal))
    if method:
        I.add_k0s(K, mesh, nodal, method, **kw)
    idx = cm.index_of(mesh, n)
    if d is None:
        return rf.from_impl(K, idx)
    dd = d(rf.from_impl(K, idx)) if callable(d) else d
    G = np.array(I.calc_kG(rf.to_impl_vec(dd, idx), mesh, nodal))
    return rf.from_impl(K, idx), rf.from_impl(G, idx), dd


def boundary(g):
    """(i, j, outward normal, length) of the boundary edges"""
    for (i, j), ts in g.edges.items():
        if len(ts) == 1:
            o = [v for v in g.tris[ts[0]] if v not in (i, j)][0]
            t = g.xy[j] - g.xy[i]
            l = np.hypot(*t)
            nrm = np.array([t[1], -t[0]])/l
            if nrm.dot(g.xy[o] - g.xy[i]) > 0:
                nrm = -nrm
            yield i, j, nrm, l


def rigid3(g, used, off):
    """dofs that suppress the three in-plane modes of components off, off+1"""
    a = used[0]
    b = max(used, key=lambda v: np.hypot(*(g.xy[v]-g.xy[a])))
    dx, dy = np.abs(g.xy[b] - g.xy[a])
    return [5*a+off, 5*a+off+1, 5*b+off + (0 if dy > dx else 1)]


def solve(K, f, d, fixed, unknown):
    """solution with the exact values prescribed at the fixed dofs"""
    out = np.zeros(len(f))
    out[fixed] = d[fixed]
    # scaled to unit diagonal: laminates in SI units mix terms of very different size
    Kuu = K[np.ix_(unknown, unknown)]
    s = 1/np.sqrt(np.abs(np.diag(Kuu)))
    rhs = f[unknown] - K[np.ix_(unknown, fixed)].dot(d[fixed])
    out[unknown] = s*np.linalg.solve(Kuu*s[:, None]*s[None, :], s*rhs)
    return out, np.linalg.cond(Kuu*s[:, None]*s[None, :])


def constant_stress(ctx, m, lname, nodal, method, state, tmp):
    """Uniform membrane forces and moments of one unit kind."""
    g = rf.Geo(m)
    p = laminate(lname)
    ABD = np.block([[np.asarray(p.A), np.asarray(p.B)], [np.asarray(p.B), np.asarray(p.D)]])
    S = np.zeros(6)
    S[state] = 1.0
    if method:
        # with transverse shear only membrane states of uncoupled laminates are exact
        S[3:] = 0
        if not S.any() or np.abs(p.B).max() > 1e-9*np.abs(p.A).max():
            return
    e = np.linalg.solve(ABD, S)
    n = g.n
    used = sorted({v for t in m['tris'] for v in t})
    K = analysis(m, [p]*(n if nodal else len(m['tris'])), nodal, method, tmp)
    ctx.trace()
    f, d = np.zeros(5*n), np.zeros(5*n)
    x0 = g.xy[used].mean(axis=0)
    for i in used:
        x, y = g.xy[i] - x0
        d[5*i+0], d[5*i+1] = e[0]*x + e[2]/2*y, e[1]*y + e[2]/2*x
        d[5*i+3], d[5*i+4] = e[3]*x + e[5]/2*y, e[4]*y + e[5]/2*x
    for i, j, nr, l in boundary(g):
        for q, o in ((0, 0), (3, 3)):
            t = np.array([S[q]*nr[0] + S[q+2]*nr[1], S[q+2]*nr[0] + S[q+1]*nr[1]])*l/2
            for v in (i, j):
                f[5*v+o:5*v+o+2] += t
    comps = [0, 1, 3, 4]
    fixed = rigid3(g, used, 0) + rigid3(g, used, 3)
    if method:
        # rotations and deflection are zero in the exact solution; leave them free but one rigid mode
        comps = [0, 1, 2, 3, 4]
        fixed = rigid3(g, used, 0) + [5*v + c for v in used for c in (2, 3, 4) if v in used[:3]]
    unknown = [5*v + c for v in used for c in comps if 5*v + c not in fixed]
    got, cond = solve(K, f, d, fixed, unknown)
    for sl in ([0, 1], [3, 4], [2]):
        w = np.concatenate([d.reshape(-1, 5)[used][:, sl].ravel()])
        h = np.concatenate([got.reshape(-1, 5)[used][:, sl].ravel()])
        # couplings: rotations and displacements of a laminate in one scale of the stress state
        ref = max(np.abs(w).max(), 0)
        L = np.abs(g.xy[used] - x0).max()
        if sl == [3, 4]:
            ref = max(ref, np.abs(np.linalg.inv(ABD)[3:, state]).max()*L)
        elif sl == [0, 1]:
            ref = max(ref, np.abs(np.linalg.inv(ABD)[:3, state]).max()*L)
        else:
            ref = L*np.abs(e[:3]).max()*max(1, L/p.h)
        scale = np.sqrt(np.abs(np.diag(np.linalg.inv(ABD))).reshape(2, 3).max(axis=1)*np.linalg.inv(ABD)[state, state])
        ref = max(ref, L*(scale[1] if sl == [3, 4] else scale[0]))
        ctx.check(np.all(np.abs(h - w) <= 1e-13*max(cond, 1e3)*ref + 1e-9*ref),
                  'stress state %d: displacements %s off by %.3g of %.3g (cond %.2g)' % (state, sl, np.abs(h-w).max(), ref, cond))
    ctx.outcome((lname, nodal, method, state))


def pure_shear(ctx, m, lname, nodal, method, gamma, rot, tmp):
    g = rf.Geo(m)
    p = laminate(lname)
    n = g.n
    used = sorted({v for t in m['tris'] for v in t})
    props = [p]*(n if nodal else len(m['tris']))
    K = analysis(m, props, nodal, method, tmp, alpha=0.)
    ctx.trace()
    Q = np.array([p.scf_k13*p.E[0, 0]*gamma[0], p.scf_k23*p.E[1, 1]*gamma[1]])
    if np.abs(p.E[0, 1]) > 1e-9*np.abs(p.E).max():
        return
    d, f = np.zeros(5*n), np.zeros(5*n)
    for i in used:
        d[5*i+2] = (gamma - rot).dot(g.xy[i])
        d[5*i+3:5*i+5] = rot
    for i, j, nr, l in boundary(g):
        f[5*i+2] += Q.dot(nr)*l/2
        f[5*j+2] += Q.dot(nr)*l/2
    fixed = [5*v+c for v in used for c in (3, 4)] + [5*used[0]+2]
    unknown = [5*v+2 for v in used[1:]]

    def judge(K):
        got, cond = solve(K, f, d, fixed, unknown)
        ref = np.abs(d[2::5]).max() + np.abs(gamma).max()*np.abs(g.xy).max()
        ok = bool(np.all(np.abs(got - d) <= 1e-9*max(1, cond/1e4)*ref))
        # reactions of the prescribed rotations: the resultant shear force times the area
        R = K.dot(d)
        A = sum(g.area)
        tol = 1e-9*(np.abs(K).dot(np.abs(d)).reshape(-1, 5)[:, 2:].sum(axis=0).max())
        return ok and bool(np.all(np.abs(R.reshape(-1, 5)[:, 3:].sum(axis=0) - Q*A) <= tol + 1e-30)), got
    ok, got = judge(K)
    ctx.count('checks')
    if not ok:
        what = 'pure transverse shear is not reproduced (%s, %s)' % (method, lname)
        if method == 'edge-based':
            # recorded defect: only if the whole matrix is exactly that of the recorded defect
            k0, a0 = rf.k0(g, props, nodal)
            ks, a1 = rf.k0s(g, props, nodal, method, alpha=0., defect_B=True)
            if rf.close(K, k0 + ks, a0 + a1):
                ctx.known_or_fail('KF-B2', what)
                return
        ctx.fail(what, got=got, want=d)
    ctx.outcome((lname, nodal, method, tuple(gamma), tuple(rot)))


# ---------------------------------------------------------------- buckling

def plate(nx, ny, pattern, a=3.0, b=2.0, z=0.0, jiggle=True):
    m = ms.grid(nx, ny, lambda i, j: pattern >> (j*nx+i) & 1, a/nx, b/ny, -0.4, 0.7, z)
    if jiggle:
        for j in range(1, ny):
            for i in range(1, nx):
                k = j*(nx+1)+i
                m['pts'][k] = [m['pts'][k][0] + 0.11*np.sin(k), m['pts'][k][1] - 0.09*np.cos(2*k)]
    return m


def supports(m):
    xy = np.array(m['pts'])
    lo, hi = xy.min(axis=0), xy.max(axis=0)
    on = [[abs(p[c]-e[c]) < 1e-9*(hi-lo).max() for e in (lo, hi) for c in (0, 1)] for p in xy]
    fixed = []
    for i, (l, bo, r, t) in enumerate(on):
        if l or bo or r or t:
            fixed.append(5*i+2)
        if l:
            fixed.append(5*i)
        if bo:
            fixed.append(5*i+1)
    return sorted(fixed), on


def load(m, N):
    """compression on the right edge"""
    g = rf.Geo(m)
    f = np.zeros(5*g.n)
    hi = g.xy.max(axis=0)
    for i, j, nr, l in boundary(g):
        if abs(g.xy[i][0]-hi[0]) < 1e-9*abs(hi).max() and abs(g.xy[j][0]-hi[0]) < 1e-9*abs(hi).max():
            f[5*i] -= N*l/2
            f[5*j] -= N*l/2
    return f


def critical(K, G, free):
    A, B = K[np.ix_(free, free)], -G[np.ix_(free, free)]
    s = 1/np.sqrt(np.diag(A))
    mu = scipy.linalg.eigh((B+B.T)/2*s[:, None]*s, (A+A.T)/2*s[:, None]*s, eigvals_only=True)
    mu = mu[np.argsort(-np.abs(mu))][:3]
    return mu


def buckling(m, props, nodal, method, N=1.0, tmp=None, model=None, **kw):
    """inverse buckling loads; model: matrices of the reference model instead"""
    n = len(m['pts'])
    fixed, _ = supports(m)
    free = [k for k in range(5*n) if k not in fixed]
    f = load(m, N)

    def static(K):
        d = np.zeros(5*n)
        A = K[np.ix_(free, free)]
        s = 1/np.sqrt(np.diag(A))
        d[free] = s*np.linalg.solve(A*s[:, None]*s, s*f[free])
        return d
    if model is None:
        K, G, d = analysis(m, props, nodal, method, tmp, d=static, **kw)
    else:
        g = rf.Geo(m)
        K = rf.k0(g, props, nodal)[0] + rf.k0s(g, props, nodal, method, defect_B=model == 'B', **kw)[0]
        d = static(K)
        G = rf.kG(g, props, nodal, d)[0]
    return critical(K, G, free), d


def scaled(p, s):
    return rf.lam(np.asarray(p.A)*s, np.asarray(p.B)*s, np.asarray(p.D)*s, np.asarray(p.E)*s, p.h, p.scf_k13, p.scf_k23)


def relength(p, c):
    """the same physical laminate with lengths measured in a unit 1/c as long (forces unchanged):
    A [force/length], B [force], D [force*length], E [force/length], h [length]"""
    return rf.lam(np.asarray(p.A)/c, np.asarray(p.B), np.asarray(p.D)*c, np.asarray(p.E)/c, p.h*c, p.scf_k13, p.scf_k23)


def agree(a, b, tol=1e-7):
    return bool(np.all(np.abs(a - b) <= tol*np.abs(b).max()))


def buckle_case(ctx, nx, ny, pattern, q, tmp):
    m = rounded(plate(nx, ny, pattern, z=cm.ZS[q % 3]))
    nodal = q % 2 == 0
    method = cm.METHODS[q % 3]
    n, T = len(m['pts']), len(m['tris'])
    base = [cm.gen(k) for k in range(3)] if q % 4 else [cm.gen(q // 4 % 3)]*3
    props = [base[i % 3] for i in range(n if nodal else T)]
    al = (0.08, 0.2, 0.)[q // 3 % 3]
    mu, d = buckling(m, props, nodal, method, alpha=al)
    refs = [buckling(m, props, nodal, method, model='A', alpha=al)[0]]
    if method == 'edge-based':
        refs.append(buckling(m, props, nodal, method, model='B', alpha=al)[0])
    ctx.trace(6)
    ctx.check(any(agree(mu, r) for r in refs), 'buckling loads %s instead of %s' % (1/mu, 1/refs[0]))
    for s in (3.0, -0.5):
        ctx.trans()
        m2, _ = buckling(m, props, nodal, method, N=s, alpha=al)
        ctx.check(agree(np.sort(m2), np.sort(s*mu)) or s < 0 and agree(np.sort(np.abs(m2)), np.sort(np.abs(s*mu))),
                  'prestress times %g: %s instead of %s' % (s, m2, s*mu))
    ctx.trans()
    m2, _ = buckling(m, [scaled(p, 250.) for p in props], nodal, method, alpha=al)
    ctx.check(agree(m2, mu/250.), 'stiffness times 250: %s instead of %s' % (m2, mu/250.))
    c = 1000.
    ctx.trans()
    mm = dict(m, pts=[[v*c for v in p] for p in m['pts']], z=m['z']*c)
    m2, _ = buckling(mm, [relength(p, c) for p in props], nodal, method, N=1/c, alpha=al)
    ctx.check(agree(m2, mu), 'other unit of length: %s instead of %s' % (m2, mu))
    if method != 'edge-based':
        # the other reader, and another numbering and listing (the edge-based method depends on them through KF-B)
        ctx.trans(2)
        m2, _ = buckling(m, props, nodal, method, tmp=tmp, alpha=al)
        ctx.check(agree(m2, mu), 'read_mesh gives %s instead of %s' % (m2, mu))
        perm = cm.rotperm(n, 1 + q % 3)
        m3 = cm.relabel(m, perm)
        # without smoothing the first vertex of a triangle is the reference of its shear gaps: keep it
        t3 = ms.reorder(m3['tris'], 1 + q % 11) if method == 'cell-based' else m3['tris'][::-1 if (1 + q % 11) % 2 else 1]
        p3 = [None]*n
        if nodal:
            for i in range(n):
                p3[perm[i]] = props[i]
        else:
            rev = (1 + q % 11) % 2
            p3 = props[::-1] if rev else props
        m2, _ = buckling(dict(m3, tris=t3), p3, nodal, method, alpha=al)
        ctx.check(agree(m2, mu), 'renumbered: %s instead of %s' % (m2, mu))
    ctx.outcome((nx, ny, pattern, round(float(mu[0]), 9)))


LENGTHS = [1e-8, 1e-5, 1e-3, .0254, 1000., 1e6]


def units_case(ctx, m, c, nodal, method, maxl, alpha, q):
    """the total stiffness in another unit of length: forces stay, displacements and lengths change by c"""
    n, T = len(m['pts']), len(m['tris'])
    props = [cm.gen((i + q) % 3) for i in range(n if nodal else T)]
    d = cm.dense_d(n, q)
    mats = []
    for f in (1., c):
        mm = dict(m, pts=[[v*f for v in p] for p in m['pts']], z=m['z']*f)
        mesh = ms.build(I, mm)
        lam = [relength(p, f) for p in props]
        cm.assign(mesh, lam if nodal else None, None if nodal else lam)
        S = np.tile([f, f, f, 1., 1.], n)
        K = np.array(I.calc_k0(mesh, nodal))
        idx = cm.index_of(mesh, n)
        Ks = np.zeros((5*n, 5*n))
        I.add_k0s(Ks, mesh, nodal, method, alpha=alpha, maxl_from_area=maxl)
        G = I.calc_kG(rf.to_impl_vec(d*S, idx), mesh, nodal)
        # forces: virtual work of displacements in the same unit
        mats.append([rf.from_impl(X, idx)*S[:, None]*S[None, :]/f for X in (K, Ks, G)])
        ctx.trace()
    g = rf.Geo(m)
    mag = cm.magnitudes(g, props, nodal, d, [method], alpha=alpha, maxl_from_area=maxl)
    for nm, a, b in zip(('k0', method, 'kG'), mats[1], mats[0]):
        A = mag[nm]
        s = np.sqrt(np.diag(A))
        A = A + 1e-3*np.outer(s, s)     # coordinates that cancel exactly in one unit only
        ctx.check(rf.close(a, b, A), '%s in a unit of length %g times as small: %s' % (nm, c, rf.worst(a, b, A)))


def probe(ctx):
    """Laminates of composites.read_stack with G13 != G23."""
    from composites.laminate import read_stack
    m = ms.grid(2, 1, lambda i, j: i, 1., .8)
    g = rf.Geo(m)
    n = g.n
    for nodal, method, axis in itertools.product((True, False), cm.METHODS[:2], (0, 1)):
        for angle in (0, 90):
            if not ctx.case(dict(probe=angle, nodal=nodal, method=method, axis=axis)):
                continue
            ctx.state()
            ctx.trans()
            G13, G23 = 5e9, 2e9
            p = read_stack([angle], plyt=.01, laminaprop=(130e9, 9e9, .3, 4e9, G13, G23))
            K = analysis(m, [p]*(n if nodal else len(m['tris'])), nodal, method, alpha=0.)
            ctx.trace()
            d = np.zeros(5*n)
            d[2::5] = g.xy[:, axis]
            got = d.dot(K).dot(d)/sum(g.area)
            kk = (p.scf_k13, p.scf_k23)[axis]
            right, swapped = (G13, G23) if (axis == 0) == (angle == 0) else (G23, G13)
            if abs(got - kk*right*.01) <= 1e-9*got:
                ctx.check(True, '')
            elif abs(got - kk*swapped*.01) <= 1e-9*got:
                ctx.known_or_fail('KF-C', 'G13 and G23 are exchanged for a read_stack laminate')
            else:
                ctx.fail('shear energy %r of a read_stack laminate is neither that of G13 nor of G23' % got)
            ctx.outcome((angle, nodal, method, axis, float(got)))


# ------------------------------------------------------------ enumeration

def plan(tier):
    u = [dict(kind='probe')]
    sets = cm.SMALL if tier == 'quick' else cm.SMALL + ['lat32']
    maps = [None] if tier == 'quick' else MAPS
    for ps in sets:
        n = len(ms.families(ps)[0])
        for mp in (maps if ps != 'lat32' else [None]):
            u += [dict(kind='exact', ps=ps, mp=mp, lo=a, hi=b, every=tier == 'thorough' and ps != 'lat32') for a, b in cm.chunks(n, 8)]
    for ps in sets:
        n = len(ms.families(ps)[0])
        u += [dict(kind='units', ps=ps, lo=a, hi=b) for a, b in cm.chunks(n, 20)]
    for nx, ny in ((2, 2), (3, 2)) + (((3, 3),) if tier == 'thorough' else ()):
        u += [dict(kind='buckle', nx=nx, ny=ny, lo=a, hi=b) for a, b in cm.chunks(1 << nx*ny, 8)]
    return u


def run(unit, ctx):
    tmp = tempfile.mkdtemp(prefix='mc_c22_')
    try:
        _run(unit, ctx, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


SHEARS = [((1., 0.), (0., 0.)), ((0., 1.), (0., 0.)), ((.7, -.4), (0., 0.)), ((0., 0.), (.3, -.2)), ((.5, .25), (-.1, .6))]


def _run(unit, ctx, tmp):
    if unit['kind'] == 'probe':
        return probe(ctx)
    if unit['kind'] == 'units':
        sts, _ = ms.families(unit['ps'])
        for k in range(unit['lo'], unit['hi']):
            m = ms.desc(unit['ps'], sts[k], MAPS[k % 5], cm.ZS[k % 3], k % 12)
            for q, (method, nodal, maxl) in enumerate(itertools.product(cm.METHODS, (True, False), (True, False))):
                for w, c in enumerate(LENGTHS):
                    if (w + k + q//2) % 3:
                        continue
                    ctx.trans()
                    if ctx.case(dict(units=c, ps=unit['ps'], k=k, nodal=nodal, method=method, maxl=maxl)):
                        ctx.state()
                        units_case(ctx, m, c, nodal, method, maxl, (.08, .3, 1.)[(k + q) % 3], k)
                        ctx.outcome((unit['ps'], k, q, c))
        return
    if unit['kind'] == 'buckle':
        for k in range(unit['lo'], unit['hi']):
            for v in range(6):
                if ctx.case(dict(nx=unit['nx'], ny=unit['ny'], pattern=k, v=v)):
                    ctx.state()
                    buckle_case(ctx, unit['nx'], unit['ny'], k, k*5 + v, tmp)
        return
    ps = unit['ps']
    sts, _ = ms.families(ps)
    for k in range(unit['lo'], unit['hi']):
        m = ms.desc(ps, sts[k], unit['mp'] or MAPS[k % 5], cm.ZS[k % 3], k % 12)
        if not ms.edge_connected(m):
            continue
        m = rounded(m)
        lams = LAMS if unit['every'] else [LAMS[(k + s) % 8] for s in (0, 3)]
        for ln, lname in enumerate(lams):
            for state, nodal in itertools.product(range(6), (True, False)):
                q = k + ln + state
                ctx.trans()
                if ctx.case(dict(ps=ps, mp=unit['mp'], k=k, lam=lname, state=state, nodal=nodal)):
                    ctx.state()
                    constant_stress(ctx, m, lname, nodal, None, state, tmp if q % 5 == 0 else None)
                    if state < 3:
                        constant_stress(ctx, m, ('iso', 'sym', 'angle')[q % 3], nodal, cm.METHODS[q % 2] if q % 3 else 'edge-based', state, None)
            for s, (ga, ro) in enumerate(SHEARS):
                for nodal, method in itertools.product((True, False), cm.METHODS):
                    ctx.trans()
                    if ctx.case(dict(ps=ps, mp=unit['mp'], k=k, lam=lname, shear=s, nodal=nodal, method=method)):
                        ctx.state()
                        pure_shear(ctx, m, lname, nodal, method, np.array(ga), np.array(ro), tmp if (k + s) % 7 == 0 else None)
