"""C26: matrices are superpositions over mesh parts, laminate terms and displacements."""
import itertools
from types import SimpleNamespace

import numpy as np

from .. import common as cm, meshspace as ms, refmodel as rf
from ..impl import I

LEVEL = 'model_checking'
RULE = ('every transition of the mesh-building system (one triangle added) and every diamond of two transitions is '
        'checked between the matrices of the real code in the states it joins: a transition may change entries only '
        'within the edge domains of the new triangle, two triangles without a common edge superpose exactly; in '
        'every state sums and multiples of laminates and displacements give sums and multiples of matrices')
BOUNDS = {
    'quick': 'all states, transitions and diamonds of 7 point sets (3-5 points) x 9 maps (vertex and element orders rotating) '
             'and of the 2x3 lattice x 2 maps, 5 matrices x both sources; 12 linear combinations per state; large meshes: removal '
             'of every element and of every 4th pair; combinations on ' + cm.SCENETEXT + '; and of ' + cm.LAMTEXT,
    'thorough': 'as quick plus lattice x 9 maps, hexagon with centre x 3 maps, 2x4 lattice, every pair of the large meshes',
}
ASSUMPTIONS = ['planar meshes with constant z', 'laminates of a combination share thickness and shear correction factors '
               'where the shear stiffness is compared (it is not linear in these)']

TOL = 20*rf.RTOL


def plan(tier):
    maps = cm.MAPNAMES
    u = []
    for ps in cm.SMALL:
        for q, mp in enumerate(maps):
            for nodal in (True, False):
                u.append(dict(kind='space', ps=ps, mp=mp, nodal=nodal, order=q))
    for q, mp in enumerate(maps if tier == 'thorough' else ['skew', 'wobble']):
        for nodal in (True, False):
            u.append(dict(kind='space', ps='lat32', mp=mp, nodal=nodal, order=q))
    if tier == 'thorough':
        for q, mp in enumerate(['neg', 'thin', 'wobble']):
            for nodal in (True, False):
                u.append(dict(kind='space', ps='hexa', mp=mp, nodal=nodal, order=q+1))
                u.append(dict(kind='space', ps='lat42', mp=mp, nodal=nodal, order=q+2))
    for ps in cm.SMALL:
        u += cm.cover_units(ps, 15, what='linear')
    u += cm.cover_units('lat32', 30, what='linear')
    u += cm.lam_units() + cm.scene_units()
    step = 1 if tier == 'thorough' else 4
    u += [dict(kind='big', name=n, nodal=b, step=step) for n in ('fan', 'ring', 'grid91', 'grid44r') for b in (True, False)]
    u.sort(key=lambda x: x['kind'] != 'space' or x['ps'] not in ('hexa', 'lat42', 'lat32'))
    return u


def matrices(ctx, pts, tris, z, pn, pe, nodal, d):
    m = ms.make(pts, tris, z)
    mesh = ms.build(I, m)
    cm.assign(mesh, pn if nodal else None, None if nodal else pe)
    ctx.trace()
    return cm.assemble(mesh, len(pts), nodal, d)


def nodes_near(tris, t):
    """Entries an element may touch: pairs within one of its edge domains."""
    sets = []
    for a, b in itertools.combinations(t, 2):
        s = set(t)
        for u in tris:
            if a in u and b in u:
                s |= set(u)
        sets.append(s)
    return sets


def mask(n, sets):
    M = np.zeros((5*n, 5*n), bool)
    for s in sets:
        dofs = np.concatenate([np.arange(5)+5*v for v in sorted(s)])
        M[np.ix_(dofs, dofs)] = True
    return M


def local_sets(name, tris, t):
    return [set(t)] if name.startswith('cell') else nodes_near(tris, t)


def share(s, t):
    return len(set(s) & set(t)) == 2


def transition(ctx, n, T, t, K1, K0, A):
    for nm in K1:
        D = np.abs(K1[nm]-K0[nm])
        out = ~mask(n, local_sets(nm, T, t))
        ctx.check(bool(np.all(D[out] <= TOL*A[nm][out])), 'adding %s changes %s between distant nodes' % (list(t), nm))


def diamond(ctx, n, T, s, t, K11, K01, K10, K00, A):
    for nm in K11:
        D = np.abs(K11[nm]-K01[nm]-K10[nm]+K00[nm])
        lim = TOL*A[nm]
        if share(s, t) and not nm.startswith('cell'):
            common = set(s) | set(t)
            lim = np.where(mask(n, [common]), np.inf, lim)
        ctx.check(bool(np.all(D <= lim)), '%s: the contributions of %s and %s do not superpose' % (nm, list(s), list(t)))


def amp(A, B):
    return {k: np.maximum(A[k], B[k]) for k in A}


def zeros(n):
    return {k: np.zeros((5*n, 5*n)) for k in ['k0', 'kG'] + cm.METHODS}


def space(unit, ctx):
    ps, nodal, order = unit['ps'], unit['nodal'], unit['order']
    sts, ntr = ms.families(ps)
    pts = ms.mapped(ms.POINTSETS[ps], unit['mp'])
    n = len(pts)
    z = cm.ZS[order % 3]
    alltris = sorted(set(tuple(t) for s in sts for t in s))
    rank = {t: (i*5 + 3*order) % len(alltris) if len(alltris) % 5 else (i + order) % len(alltris)
            for i, t in enumerate(alltris)}
    vo = {t: tuple(t[v] for v in ms.VERTEX_ORDERS[(2*i + order) % 6]) for i, t in enumerate(alltris)}
    pn = cm.hetero(n, order)
    lamof = {t: cm.gen((i*2 + order) % 3) for i, t in enumerate(alltris)}
    d = cm.dense_d(n, order)
    K, A = {frozenset(): zeros(n)}, {frozenset(): zeros(n)}
    for st in sorted((frozenset(map(tuple, s)) for s in sts), key=lambda s: (len(s), sorted(s))):
        tris = sorted(st, key=lambda t: rank[t])
        if not ctx.case(dict(tris=[vo[t] for t in tris], pts=pts, z=z)):
            if ctx.only is not None and not set(ctx.only['tris'] and map(frozenset, ctx.only['tris'])) >= set(
                    map(frozenset, tris)):
                continue        # replay: only the states below the one wanted
        ctx.state()
        mt = [vo[t] for t in tris]
        pe = [lamof[t] for t in tris]
        K[st] = matrices(ctx, pts, mt, z, pn, pe, nodal, d)
        g = rf.Geo(ms.make(pts, mt, z))
        A[st] = cm.magnitudes(g, pn if nodal else pe, nodal, d)
        lonely = sorted(set(range(n)) - set(v for t in tris for v in t))
        for nm, M in K[st].items():
            for v in lonely:
                ctx.check(not M[5*v:5*v+5].any() and not M[:, 5*v:5*v+5].any(),
                          '%s: node %d of no element has stiffness' % (nm, v))
        for t in tris:
            ctx.trans()
            transition(ctx, n, mt, t, K[st], K[st - {t}], amp(A[st], A[st - {t}]))
        for s, t in itertools.combinations(tris, 2):
            ctx.count('diamonds')
            diamond(ctx, n, mt, s, t, K[st], K[st - {s}], K[st - {t}], K[st - {s, t}],
                    amp(A[st], amp(A[st - {s}], A[st - {t}])))
        ctx.outcome((len(st), np.round(np.diag(K[st]['k0'])/max(A[st]['k0'].max(), 1e-300), 6).tolist()))


def combo(p, q, a, b, h=None):
    """a*p + b*q in all stiffness terms; thickness and factors of p."""
    r = SimpleNamespace()
    for nm in 'ABDE':
        setattr(r, nm, a*np.asarray(getattr(p, nm)) + b*np.asarray(getattr(q, nm)))
    r.h, r.scf_k13, r.scf_k23 = p.h, p.scf_k13, p.scf_k23
    return r


def only(p, keep):
    r = SimpleNamespace(h=p.h, scf_k13=p.scf_k13, scf_k23=p.scf_k23)
    for nm in 'ABDE':
        M = np.array(getattr(p, nm), float)
        setattr(r, nm, M if nm in keep else M*0)
    return r


def linear(ctx, m, k, nodal, P=None):
    n = len(m['pts'])
    num = n if nodal else len(m['tris'])
    P = P or cm.hetero(num, k)
    Q = [combo(p, q, 0.0, 1.0) for p, q in zip(P, cm.hetero(num, k+1)[::-1])]   # thickness, factors of P
    mesh = ms.build(I, m)
    g = rf.Geo(m)
    d1, d2 = cm.dense_d(n, k), np.roll(cm.dense_d(n, k+5), 3)

    def of(props, d=d1):
        cm.assign(mesh, props if nodal else None, None if nodal else props)
        ctx.trace()
        return cm.assemble(mesh, n, nodal, d)

    def mag(props, d=d1):
        return cm.magnitudes(g, props, nodal, d)

    def equal(what, got, want, A, names=None):
        for nm in names or got:
            D = np.abs(got[nm]-want[nm])
            ctx.check(bool(np.all(D <= TOL*A[nm])), '%s: %s' % (nm, what))
    KP, KQ, AP, AQ = of(P), of(Q), mag(P), mag(Q)
    for a, b in ((1.0, 1.0), (2.0, 0.0), (0.25, 3.0), (1e-3, 1.0), (1e6, 2e6)):
        got = of([combo(p, q, a, b) for p, q in zip(P, Q)])
        equal('not linear in the laminate stiffness (%g, %g)' % (a, b), got,
              {x: a*KP[x] + b*KQ[x] for x in KP}, {x: abs(a)*AP[x] + abs(b)*AQ[x] for x in KP})
    parts = {c: of([only(p, c) for p in P]) for c in 'ABDE'}
    equal('not the sum of the contributions of A, B, D and E', KP,
          {x: sum(parts[c][x] for c in 'ABDE') for x in KP}, AP)
    # the two terms of E, each alone
    two = []
    for c in ((1., 0.), (0., 1.)):
        props = [only(p, 'ABDE') for p in P]
        for p in props:
            p.E = p.E*np.diag(c)
        two.append((of(props), mag(props)))
    equal('not the sum of the contributions of the two terms of E', {x: KP[x] for x in cm.METHODS},
          {x: two[0][0][x] + two[1][0][x] for x in cm.METHODS}, {x: two[0][1][x] + two[1][1][x] for x in cm.METHODS})
    none = {'A': cm.METHODS, 'B': cm.METHODS, 'D': cm.METHODS + ['kG'], 'E': ['k0', 'kG']}
    for c, names in none.items():
        for nm in names:
            ctx.check(not parts[c][nm].any(), '%s depends on %s' % (nm, c))
    for a, b in ((1.0, 1.0), (-1.0, 0.0), (3.0, -0.5), (0.0, 0.0)):
        got = of(P, a*d1 + b*d2)
        K2, A2 = of(P, d2), mag(P, d2)
        equal('not linear in the displacements (%g, %g)' % (a, b), got, {'kG': a*KP['kG'] + b*K2['kG']},
              {'kG': abs(a)*AP['kG'] + abs(b)*A2['kG']}, ['kG'])
    dw = np.zeros(5*n)
    dw[2::5] = d1[2::5]
    ctx.check(not of(P, dw)['kG'].any(), 'kG: a deflection alone gives a prestress')
    ctx.outcome(('linear', np.round(np.diag(KP['k0'])/max(AP['k0'].max(), 1e-300), 6).tolist()))


def big(unit, ctx):
    m = next(cm.big_meshes([unit['name']]))[1]
    nodal = unit['nodal']
    n, T = len(m['pts']), [tuple(t) for t in m['tris']]
    pn = cm.hetero(n, 1)
    lamof = {t: cm.gen(i % 3) for i, t in enumerate(T)}
    d = cm.dense_d(n, 2)

    def of(tris):
        return matrices(ctx, m['pts'], tris, m['z'], pn, [lamof[t] for t in tris], nodal, d)
    K = of(T)
    A = cm.magnitudes(rf.Geo(m), pn if nodal else [lamof[t] for t in T], nodal, d)
    less = {}
    pairs = list(itertools.combinations(range(len(T)), 2))[::unit['step']*(7 if len(T) > 20 else 1)]
    for i in range(len(T)):
        if ctx.case(dict(mesh=unit['name'], removed=i)) or ctx.only:
            ctx.state()
            ctx.trans()
            less[i] = of(T[:i] + T[i+1:])
            transition(ctx, n, T, T[i], K, less[i], A)
    for i, j in pairs:
        if ctx.case(dict(mesh=unit['name'], removed=[i, j])):
            ctx.state()
            ctx.count('diamonds')
            diamond(ctx, n, T, T[i], T[j], K, less[i], less[j], of([t for q, t in enumerate(T) if q not in (i, j)]), A)


def run(unit, ctx):
    if unit['kind'] == 'space':
        space(unit, ctx)
    elif unit['kind'] == 'big':
        big(unit, ctx)
    elif unit['kind'] == 'scene':
        for k, m, nodal, pn, pe, _ in cm.scenes(unit, ctx):
            linear(ctx, m, k, nodal, pn if nodal else pe)
    elif unit['kind'] in cm.LAMKINDS:
        for k, (m, nodal, pn, pe) in enumerate(cm.lam_cases(unit, ctx)):
            linear(ctx, m, k, nodal, pn if nodal else pe)
    else:
        for k, m in cm.states(unit, ctx):
            for nodal in (True, False):
                if ctx.case(dict(m=m, nodal=nodal, k=k)):
                    linear(ctx, m, k, nodal)
