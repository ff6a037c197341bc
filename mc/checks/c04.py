"""C04: constitutive stiffness equals the ES-PIM definition entry by entry."""
import numpy as np

from .. import common as cm, meshspace as ms, refmodel as rf
from ..impl import I

LEVEL = 'model_checking'
RULE = ('every state of the mesh-building transition system (all partial triangulations of each point '
        'set) is built for real and calc_k0 is compared entry by entry with the reference definition; '
        'an outcome is the rounded matrix fingerprint')
BOUNDS = {
    'quick': '7 point sets (3-5 points) completely x 9 maps x both property sources; all 72 states of the 2x3 '
             'lattice, 729 of the hexagon with centre; 6 large meshes; the 18 single-term laminates; real laminates; ' + cm.SCENETEXT + '; ' + cm.LAMTEXT,
    'thorough': 'as quick plus all states of the 2x4 lattice, all states with <= 4 triangles of the 3x3 lattice and '
                'the 64 full triangulations of the 3x3 lattice, every vertex order of two- and three-triangle meshes',
}
ASSUMPTIONS = ['planar meshes with constant z', 'laminate values are from a finite alphabet (the matrix is '
               'linear in them: single-term laminates are checked separately)',
               'relative rounding tolerance %g of the magnitude of the summed terms' % rf.RTOL]


def plan(tier):
    u = cm.full_units(cm.SMALL, cm.MAPNAMES, size=15)
    u += cm.cover_units('lat32', 24) + cm.cover_units('hexa', 30)
    u += [dict(kind='big', names=[n]) for n in sorted(cm.BIG)]
    u += [dict(kind='terms', ps=ps) for ps in ('tri', 'kite', 'quad_c')]
    u += [dict(kind='real', ps=ps) for ps in ('quad', 'penta')]
    u += [dict(kind='orders', ps='kite', i=i) for i in range(6)]
    u += cm.lam_units() + cm.scene_units()
    if tier == 'thorough':
        u += cm.cover_units('lat42', 30) + cm.cover_units('lat33', 60, maxtri=4)
        u += [dict(kind='max', lo=lo, hi=hi) for lo, hi in cm.chunks(64, 8)]
        u += cm.full_units(['lat32', 'hexa'], ['skew', 'big', 'thin'], size=40)
        u += [dict(kind='orders', ps='dart', i=i) for i in range(6)]
    return u


def verify(ctx, m, pn, pe, nodal, both=False, spd=True):
    mesh = ms.build(I, m)
    n = len(m['pts'])
    cm.assign(mesh, pn if nodal or both else None, pe if (not nodal) or both else None)
    K = I.calc_k0(mesh, nodal)
    ctx.trace()
    idx = cm.index_of(mesh, n)
    if not ctx.check(cm.valid_index(idx), 'node indices are not a numbering 0..n-1', index=idx):
        return None
    if not ctx.check(getattr(K, 'shape', None) == (5*n, 5*n), 'wrong shape', shape=getattr(K, 'shape', None)):
        return None
    Km = rf.from_impl(K, idx)
    g = rf.Geo(m)
    R, Ra = rf.k0(g, pn if nodal else pe, nodal)
    ctx.check(rf.close(Km, R, Ra), 'k0 differs from the definition: ' + rf.worst(Km, R, Ra))
    # the invariants of the statement, on the implementation's own matrix
    mag = Ra.max()
    ctx.check(np.all(np.abs(Km - Km.T) <= rf.RTOL*np.maximum(Ra, Ra.T)), 'k0 is not symmetric')
    w = np.arange(2, 5*n, 5)
    ctx.check(not Km[w].any() and not Km[:, w].any(), 'k0 has w terms')
    used = set(v for t in m['tris'] for v in t)
    for i in range(n):
        if i not in used:
            ctx.check(not Km[5*i:5*i+5].any() and not Km[:, 5*i:5*i+5].any(), 'unused node has stiffness')
    sc = np.sqrt(np.maximum(np.diag(Ra), 1e-300))
    sc[np.diag(Ra) == 0] = 1
    ev = np.linalg.eigvalsh((Km + Km.T)/2/np.outer(sc, sc))
    ctx.check(not spd or ev[0] > -1e-9, 'k0 is not positive semi-definite', eig=float(ev[0]))
    ctx.outcome(np.round(np.diag(Km)/mag, 6).tolist())
    return Km


def run(unit, ctx):
    kind = unit['kind']
    if kind in ('full', 'cover'):
        for k, m in cm.states(unit, ctx):
            for nodal in (True, False):
                if not ctx.case(dict(m=m, nodal=nodal, k=k)):
                    continue
                pn, pe = cm.hetero(len(m['pts']), k), cm.hetero(len(m['tris']), k+1)
                verify(ctx, m, pn, pe, nodal, both=(k % 3 == 0))
    elif kind == 'big':
        for nm, m in cm.big_meshes(unit['names']):
            for nodal in (True, False):
                if not ctx.case(dict(mesh=nm, nodal=nodal)):
                    continue
                ctx.state()
                verify(ctx, m, cm.hetero(len(m['pts']), 1), cm.hetero(len(m['tris']), 2), nodal)
    elif kind in cm.LAMKINDS:
        for m, nodal, pn, pe in cm.lam_cases(unit, ctx):
            verify(ctx, m, pn, pe, nodal, spd=False)
    elif kind == 'scene':
        for k, m, nodal, pn, pe, _ in cm.scenes(unit, ctx):
            verify(ctx, m, pn, pe, nodal, both=(k % 3 == 0))
    elif kind == 'terms':
        sts, ntr = ms.families(unit['ps'])
        m = cm.relabel(ms.desc(unit['ps'], sts[-1], 'skew', 0.5, 3), cm.rotperm(len(ms.POINTSETS[unit['ps']]), 1))
        for blk in 'ABD':
            for i in range(3):
                for j in range(i, 3):
                    for nodal in (True, False):
                        if not ctx.case(dict(term=blk + str(i) + str(j), nodal=nodal)):
                            continue
                        ctx.state()
                        p = rf.unit_term(blk, i, j)
                        mesh = ms.build(I, m)
                        cm.assign(mesh, [p]*len(m['pts']), [p]*len(m['tris']))
                        K = I.calc_k0(mesh, nodal)
                        ctx.trace()
                        Km = rf.from_impl(K, cm.index_of(mesh, len(m['pts'])))
                        R, Ra = rf.k0(rf.Geo(m), [p]*20, nodal)
                        ctx.check(rf.close(Km, R, Ra), 'single-term laminate: ' + rf.worst(Km, R, Ra))
                        ctx.outcome(Km.round(9).tolist())
    elif kind == 'real':
        names = ['iso', 'iso_off', 'sym', 'uns', 'angle']
        sts, _ = ms.families(unit['ps'])
        for q, tris in enumerate(sts):
            for s, nm in enumerate(names):
                for nodal in (True, False):
                    if not ctx.case(dict(q=q, lam=nm, nodal=nodal)):
                        continue
                    ctx.state()
                    m = ms.desc(unit['ps'], tris, cm.MAPNAMES[(q+s) % 9], 0.0, q+s)
                    lams = [rf.real_laminate(nm), rf.real_laminate(names[(s+1) % 5])]
                    verify(ctx, m, [lams[i % 2] for i in range(len(m['pts']))],
                           [lams[i % 2] for i in range(len(m['tris']))], nodal)
    elif kind == 'orders':
        sts, _ = ms.families(unit['ps'])
        tris = [s for s in sts if len(s) == 2][0] if unit['ps'] == 'kite' else sts[-1]
        import itertools
        orders = ms.VERTEX_ORDERS
        for combo in itertools.product(range(6), repeat=len(tris)-1):
            combo = (unit['i'],) + combo
            for perm in itertools.permutations(range(len(tris))):
                if not ctx.case(dict(combo=combo, perm=perm)):
                    continue
                ctx.state()
                tt = [[tris[q][v] for v in orders[combo[q]]] for q in perm]
                m = ms.make(ms.mapped(ms.POINTSETS[unit['ps']], 'neg'), tt, -1.0)
                verify(ctx, m, cm.hetero(len(m['pts']), 1), cm.hetero(len(tt), 1), bool(sum(combo) % 2))
    elif kind == 'max':
        full = ms.maximal('lat33')
        for q in range(unit['lo'], min(unit['hi'], len(full))):
            if not ctx.case(dict(q=q)):
                continue
            ctx.state()
            m = cm.relabel(ms.desc('lat33', full[q], cm.MAPNAMES[q % 9], 0.0, q), cm.rotperm(9, q))
            verify(ctx, m, cm.hetero(9, q), cm.hetero(len(full[q]), q), bool(q % 2))
