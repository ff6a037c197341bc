"""C06: each edge domain uses exactly the properties of its own nodes or elements."""
import itertools

import numpy as np

from .. import common as cm, meshspace as ms, refmodel as rf
from ..impl import I
from . import c02, c07

LEVEL = 'model_checking'
RULE = ('states are assignments of distinct laminates to the nodes or the elements of a mesh; each is assembled for real '
        '(k0, kG, three shear methods) and compared with the definition; the source that is not selected holds nothing, '
        'conflicting laminates or laminates that raise when read')
BOUNDS = {
    'quick': 'all 2^n nodal and 3^T elemental assignments on the full triangulations of 6 small point sets (2 vertex/element '
             'orders each), single-place changes on all states of the 2x3 lattice and large meshes; 3 forms of the flag; '
             'all assignments of two laminates on meshes read from decks, with 5 identifier maps and 4 card orders (rotated); '
             + cm.SCENETEXT + '; ' + cm.LAMTEXT,
    'thorough': 'as quick with 3^n nodal assignments and every state of the small point sets, 2x4 lattice',
}
ASSUMPTIONS = ['edge-based shear of interior edges may show the recorded defect KF-B of C09']


def verify(ctx, m, which, nodal, k, ref=True):
    """which: laminate number per place"""
    n, T = len(m['pts']), len(m['tris'])
    mesh = ms.build(I, m)
    props = [cm.gen(q) for q in which]
    used = sorted(set(v for t in m['tris'] for v in t))
    if nodal:
        pn = [props[i] if i in used else [None, cm.Poison()][k % 2] for i in range(n)]
        pe = [None, [cm.gen(5)]*T, [cm.Poison()]*T][k % 3]
    else:
        pe = props
        pn = [None, [cm.gen(5)]*n, [cm.Poison()]*n][k % 3]
    cm.assign(mesh, pn, pe)
    d = cm.dense_d(n, k)
    got = cm.assemble(mesh, n, nodal, d)
    ctx.trace()
    g = rf.Geo(m)
    # unused nodes have no weight
    full = props if not nodal else [p if p is not None else cm.gen(0) for p in props]
    cm.same(ctx, got, cm.reference(g, full, nodal, d), 'assignment %s (%s)' % (which, 'nodes' if nodal else 'elements'))
    ctx.outcome((which, nodal, round(float(np.trace(got['k0'])), 6)))
    if len(set(which)) == 1:
        # a uniform laminate through the other source
        if nodal:
            cm.assign(mesh, [None]*n, [props[0]]*T)
        else:
            cm.assign(mesh, [props[0]]*n, [None]*T)
        other = cm.assemble(mesh, n, not nodal, d)
        mag = cm.magnitudes(g, full, nodal, d)
        cm.same(ctx, other, {q: [(got[q], mag[q])] for q in got}, 'uniform laminate through the other source')


def influence(ctx, m, nodal, place, k):
    """Changing one laminate changes only the domains it belongs to."""
    n, T = len(m['pts']), len(m['tris'])
    places = n if nodal else T
    out = []
    g = rf.Geo(m)
    d = cm.dense_d(n, k)
    for val in (0, 3):
        mesh = ms.build(I, m)
        props = [cm.gen(1 + q % 2) for q in range(places)]
        props[place] = cm.gen(val)
        cm.assign(mesh, props if nodal else None, None if nodal else props)
        out.append((cm.assemble(mesh, n, nodal, d), cm.magnitudes(g, props, nodal, d)))
        ctx.trace()
    touched = {'edge': set(), 'cell': set()}
    for e, ts in g.edges.items():
        nodes = set(v for t in ts for v in m['tris'][t])
        if (place in nodes) if nodal else (place in ts):
            touched['edge'] |= {(a, b) for a in nodes for b in nodes}
    for t, tri in enumerate(m['tris']):
        if (place in tri) if nodal else place == t:
            touched['cell'] |= {(a, b) for a in tri for b in tri}
    for q in out[0][0]:
        D = np.abs(out[0][0][q] - out[1][0][q]) > rf.RTOL*np.maximum(out[0][1][q], out[1][1][q])
        where = touched['cell' if q.startswith('cell') else 'edge']
        bad = [(a//5, b//5) for a, b in zip(*np.nonzero(D)) if (a//5, b//5) not in where]
        ctx.check(not bad, '%s: laminate of place %d changes the blocks %s' % (q, place, bad[:3]))


def agreeing(ctx, m, nodal, pn, pe, code):
    """laminates that agree in some of their data; the flag in every form of a truth value"""
    n = len(m['pts'])
    mesh = ms.build(I, m)
    cm.assign(mesh, pn if nodal else None, None if nodal else pe)
    d = cm.dense_d(n, code)
    flag = [(True, 1, np.True_), (False, 0, np.False_)][not nodal][code % 3]
    got = cm.assemble(mesh, n, flag, d)
    ctx.trace()
    cm.same(ctx, got, cm.reference(rf.Geo(m), pn if nodal else pe, nodal, d), 'laminates agreeing in %s' % (
        [a for b, a in enumerate(cm.LAMDATA) if code >> b & 1]))


def from_deck(ctx, m, which, nodal, k, idmap, order):
    """the places addressed by their identifiers in a bulk data deck"""
    n, T = len(m['pts']), len(m['tris'])
    mesh, nid, eid = c07.through_deck(m, idmap, order)
    props = [cm.gen(q) for q in which]
    for q in range(n):
        mesh.nodes[nid[q]].prop = props[q] if nodal else [None, cm.gen(5)][k % 2]
    for q in range(T):
        mesh.elements[eid[q]].prop = props[q] if not nodal else [cm.Poison(), None][k % 2]
    d = cm.dense_d(n, k)
    K = np.array(I.calc_k0(mesh, nodal))
    idx = [mesh.nodes[v].index for v in nid]
    if not ctx.check(cm.valid_index(idx), 'node indices %s are not a numbering of the rows' % idx):
        return
    S = np.zeros((5*n, 5*n))
    I.add_k0s(S, mesh, nodal, cm.METHODS[0])
    got = {'k0': rf.from_impl(K, idx), cm.METHODS[0]: rf.from_impl(S, idx),
           'kG': rf.from_impl(I.calc_kG(rf.to_impl_vec(d, idx), mesh, nodal), idx)}
    ctx.trace()
    cm.same(ctx, got, cm.reference(rf.Geo(m), props, nodal, d, methods=cm.METHODS[:1]),
            'assignment %s (%s) to a deck with nodes %s and elements %s' % (which, 'nodes' if nodal else 'elements', nid, eid))
    ctx.outcome((which, nodal, tuple(nid), tuple(eid), order))


def plan(tier):
    u = cm.lam_units() + cm.scene_units()
    kinds = 3 if tier == 'thorough' else 2
    for ps in cm.SMALL:
        n = len(ms.POINTSETS[ps])
        S = ms.families(ps)[0] if tier == 'thorough' else ms.maximal(ps)
        for s in range(len(S)):
            for nodal in (True, False):
                tot = kinds**n if nodal else 3**len(S[s])
                u += [dict(kind='all', ps=ps, s=s, nodal=nodal, lo=lo, hi=hi, kinds=kinds if nodal else 3, tier=tier)
                      for lo, hi in cm.chunks(tot, 100)]
    u += [dict(kind='deck', ps=ps, nodal=nodal) for ps in cm.SMALL for nodal in (True, False)]
    u += [dict(c, kind='infl', mode=c['kind']) for c in cm.cover_units('lat32', 24)]
    u += [dict(kind='big', names=[n]) for n in sorted(cm.BIG) if n != 'grid1615']
    if tier == 'thorough':
        u += [dict(c, kind='infl', mode=c['kind']) for c in cm.cover_units('lat42', 40)]
    return u


def run(unit, ctx):
    if unit['kind'] == 'all':
        S = ms.families(unit['ps'])[0] if unit['tier'] == 'thorough' else ms.maximal(unit['ps'])
        tris = S[unit['s']]
        places = len(ms.POINTSETS[unit['ps']]) if unit['nodal'] else len(tris)
        for code in range(unit['lo'], unit['hi']):
            which, c = [], code
            for _ in range(places):
                which.append(c % unit['kinds'])
                c //= unit['kinds']
            for variant in (code % 12, (code*5 + 7) % 12):
                if not ctx.case(dict(which=which, nodal=unit['nodal'], variant=variant)):
                    continue
                ctx.state()
                ctx.trans(places)
                mp = cm.MAPNAMES[code % 9]
                m = ms.desc(unit['ps'], tris, mp, cm.ZS[code % 3], variant)
                verify(ctx, m, which, unit['nodal'], code + variant)
    elif unit['kind'] == 'deck':
        combos = list(itertools.product(c02.IDMAPS, c02.ORDERS))
        k = 0
        for s, tris in enumerate(ms.maximal(unit['ps'])):
            places = len(ms.POINTSETS[unit['ps']]) if unit['nodal'] else len(tris)
            for which in itertools.product(range(2), repeat=places):
                k += 1
                for idmap, order in (combos if places < 3 else [combos[(3*k + q) % len(combos)] for q in (0, 7)]):
                    if not ctx.case(dict(s=s, which=which, nodal=unit['nodal'], ids=idmap, order=order)):
                        continue
                    ctx.state()
                    m = c07.deckable(ms.desc(unit['ps'], tris, 'id', cm.ZS[k % 3], k % 12))
                    from_deck(ctx, m, list(which), unit['nodal'], k, idmap, order)
    elif unit['kind'] == 'scene':
        for k, m, nodal, pn, pe, _ in cm.scenes(unit, ctx):
            agreeing(ctx, m, nodal, pn, pe, k)
    elif unit['kind'] in cm.LAMKINDS:
        for q, (m, nodal, pn, pe) in enumerate(cm.lam_cases(unit, ctx)):
            agreeing(ctx, m, nodal, pn, pe, unit.get('lo', 0) + q//2)
    elif unit['kind'] == 'infl':
        for k, m in cm.states(dict(unit, kind=unit['mode']), ctx):
            for nodal in (True, False):
                for place in range(len(m['pts']) if nodal else len(m['tris'])):
                    if ctx.case(dict(m=m, nodal=nodal, place=place)):
                        influence(ctx, m, nodal, place, k)
    else:
        for nm, m in cm.big_meshes(unit['names']):
            for nodal in (True, False):
                places = len(m['pts']) if nodal else len(m['tris'])
                if ctx.case(dict(mesh=nm, nodal=nodal)):
                    ctx.state()
                    verify(ctx, m, [(q*q + q//3) % 4 for q in range(places)], nodal, 2)
                for place in range(0, places, max(9, places//9)):
                    if ctx.case(dict(mesh=nm, nodal=nodal, place=place)):
                        influence(ctx, m, nodal, place, place)
