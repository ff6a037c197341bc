"""C07: results do not depend on how nodes and elements are numbered or listed."""
import itertools

import numpy as np

from .. import common as cm, meshspace as ms, refmodel as rf
from ..impl import I
from . import c02

LEVEL = 'model_checking'
RULE = ('the symmetry group of a mesh description (node renumbering x element order x vertex orders) is explored from the '
        'base description; each image is assembled for real and compared with the base after permuting rows and columns '
        'by the node index')
BOUNDS = {
    'quick': 'all node permutations, all element orders and all vertex orders (each group completely) of the full '
             'triangulations of 7 point sets; all node permutations of them read from decks with 5 identifier '
             'maps and 4 card orders (rotated); generators of the groups on every state of the 2x3 lattice and on large meshes '
             'and for ' + cm.SCENETEXT + '; ' + cm.LAMTEXT,
    'thorough': 'as quick for every state of the 7 point sets, products of the groups on small ones, hexagon, 2x4 lattice',
}
ASSUMPTIONS = ['the cell-based method without smoothing depends by definition on which vertex is listed first, and the '
               'edge-based method on the order of the elements of an edge: only the renumberings that leave these alone '
               'are compared for them']

CELL, NOSM, EDGE = cm.METHODS


def base(m, pn, pe, nodal, d):
    n = len(m['pts'])
    mesh = ms.build(I, m)
    cm.assign(mesh, pn if nodal else None, None if nodal else pe)
    return cm.assemble(mesh, n, nodal, d), cm.magnitudes(rf.Geo(m), pn if nodal else pe, nodal, d)


def through_deck(m, idmap, order, tag=None):
    """The mesh as read from a bulk data deck; node and element identifiers of the points and triangles."""
    text, nid, eid = c02.deck(m, 'large', idmap, order)
    try:
        return I.read_mesh(c02.write(text)), nid, eid
    finally:
        c02.cleanup()


def deck_image(ctx, m, b, pn, pe, nodal, d, perm, eorder, idmap, order):
    n, T = len(m['pts']), len(m['tris'])
    m2 = cm.relabel(dict(m, tris=[m['tris'][q] for q in eorder]), perm)
    mesh, nid, eid = through_deck(m2, idmap, order)
    inv = [0]*n
    for i, p in enumerate(perm):
        inv[p] = i
    for q in range(n):
        mesh.nodes[nid[q]].prop = pn[inv[q]] if nodal else None
    for q in range(T):
        mesh.elements[eid[q]].prop = None if nodal else pe[eorder[q]]
    K = np.array(I.calc_k0(mesh, nodal))
    ctx.trace()
    idx = [mesh.nodes[nid[p]].index for p in perm]
    if not ctx.check(cm.valid_index(idx), 'node indices %s are not a numbering of the rows' % idx):
        return
    got = {'k0': rf.from_impl(K, idx)}
    S = np.zeros((5*n, 5*n))
    I.add_k0s(S, mesh, nodal, CELL)
    got[CELL] = rf.from_impl(S, idx)
    got['kG'] = rf.from_impl(I.calc_kG(rf.to_impl_vec(d, idx), mesh, nodal), idx)
    ref, mag = b
    for q in got:
        ctx.check(rf.close(got[q], ref[q], mag[q]), '%s of the deck (ids %s, order %s) changes under renumbering: %s' % (
            q, nid, order, rf.worst(got[q], ref[q], mag[q])))


def decks(ctx, m, k, nodal, tag, perms):
    """every numbering of the nodes read through decks with every identifier map and card order"""
    n, T = len(m['pts']), len(m['tris'])
    pn, pe, d, b = setup(m, k, nodal)
    combos = [(i, o) for i in c02.IDMAPS for o in c02.ORDERS]
    for q, perm in enumerate(perms):
        eorder = [list(range(T)), list(range(T))[::-1], list(range(1, T)) + [0]][q % 3]
        sel = combos if len(perms) <= 6 else [combos[(3*q + k) % len(combos)], combos[(7*q + k + 5) % len(combos)]]
        for idmap, order in sel:
            if not ctx.case(dict(tag, deck=1, perm=perm, elems=eorder, ids=idmap, order=order)):
                continue
            ctx.state()
            ctx.trans()
            deck_image(ctx, m, b, pn, pe, nodal, d, perm, eorder, idmap, order)
            ctx.outcome((tag, perm, eorder, idmap, order))


def image(ctx, m, b, pn, pe, nodal, d, perm, eorder, vorder, skip):
    """perm: old point -> new point; eorder: position -> old element; vorder per old element"""
    n, T = len(m['pts']), len(m['tris'])
    tris = [[m['tris'][q][v] for v in ms.VERTEX_ORDERS[vorder[q]]] for q in eorder]
    m2 = cm.relabel(dict(m, tris=tris), perm)
    mesh = ms.build(I, m2)
    inv = [0]*n
    for i, p in enumerate(perm):
        inv[p] = i
    cm.assign(mesh, [pn[inv[q]] for q in range(n)] if nodal else None,
              None if nodal else [pe[q] for q in eorder])
    K = np.array(I.calc_k0(mesh, nodal))
    ctx.trace()
    idx0 = cm.index_of(mesh, n)
    if not ctx.check(cm.valid_index(idx0), 'node indices %s are not a numbering of the rows' % idx0):
        return
    idx = [idx0[p] for p in perm]
    got = {'k0': rf.from_impl(K, idx)}
    for me in cm.METHODS:
        if me not in skip:
            S = np.zeros((5*n, 5*n))
            I.add_k0s(S, mesh, nodal, me)
            got[me] = rf.from_impl(S, idx)
    got['kG'] = rf.from_impl(I.calc_kG(rf.to_impl_vec(d, idx), mesh, nodal), idx)
    ref, mag = b
    for q in got:
        ctx.check(rf.close(got[q], ref[q], mag[q]), '%s changes under renumbering: %s' % (q, rf.worst(got[q], ref[q], mag[q])))


def setup(m, k, nodal, props=None):
    n, T = len(m['pts']), len(m['tris'])
    pn, pe = props or ([cm.gen(q % 4) for q in range(n)], [cm.gen((q+1) % 4) for q in range(T)])
    d = cm.dense_d(n, k)
    return pn, pe, d, base(m, pn, pe, nodal, d)


def group(ctx, m, k, nodal, which, part, parts, tag, props=None):
    n, T = len(m['pts']), len(m['tris'])
    pn, pe, d, b = setup(m, k, nodal, props)
    idn, ide, idv = list(range(n)), list(range(T)), [0]*T
    if which == 'nodes':
        it = ((list(p), ide, idv, ()) for p in itertools.permutations(range(n)))
    elif which == 'elems':
        it = ((idn, list(p), idv, (EDGE,)) for p in itertools.permutations(range(T)))
    elif which == 'verts':
        it = ((idn, ide, list(p), (NOSM, EDGE)) for p in itertools.product(range(6), repeat=T))
    elif which == 'vrot':      # rotations and reversals leave the edge lists alone but not the first vertex
        it = ((idn, ide, [c]*T, (NOSM, EDGE)) for c in range(1, 6))
    elif which == 'prod':
        it = ((list(p), list(e), list(v), (NOSM, EDGE)) for p in itertools.permutations(range(n))
              for e in itertools.permutations(range(T)) for v in itertools.product(range(6), repeat=T))
    else:                      # generators
        gens = [(cm.rotperm(n, 1), ide, idv, ()), (idn[1:]+[0], ide, idv, ()), ([1, 0]+idn[2:], ide, idv, ()),
                (idn, ide[::-1], idv, (EDGE,)), (idn, ide[1:]+[0], idv, (EDGE,)),
                (idn, ide, [(5*q+1) % 6 for q in range(T)], (NOSM, EDGE)), (idn, ide, [q % 6 for q in range(T)], (NOSM, EDGE)),
                (cm.rotperm(n, 3), ide[::-1], [(q+2) % 6 for q in range(T)], (NOSM, EDGE))]
        it = iter(gens)
    for q, (perm, eo, vo, skip) in enumerate(it):
        if q % parts != part:
            continue
        if not ctx.case(dict(tag, which=which, perm=perm, elems=eo, verts=vo)):
            continue
        ctx.state()
        ctx.trans()
        image(ctx, m, b, pn, pe, nodal, d, perm, eo, vo, skip)
        ctx.outcome((tag, perm, eo, vo))


def plan(tier):
    u = []
    for ps in cm.SMALL:
        S = ms.families(ps)[0] if tier == 'thorough' else ms.maximal(ps)
        for s in range(len(S)):
            T = len(S[s])
            for which in ('nodes', 'elems', 'verts', 'prod'):
                if which == 'prod' and (T > 1 or len(ms.POINTSETS[ps]) > 4):
                    continue
                size = {'nodes': 120 if len(ms.POINTSETS[ps]) == 5 else 24, 'elems': 24, 'verts': 6**T, 'prod': 144}[which]
                parts = max(1, size//60)
                u += [dict(kind='group', ps=ps, s=s, which=which, part=p, parts=parts, tier=tier) for p in range(parts)]
    for ps in cm.SMALL:
        for s in range(len(ms.maximal(ps))):
            parts = 3 if len(ms.POINTSETS[ps]) == 5 else 1
            u += [dict(kind='deck', ps=ps, s=s, part=p, parts=parts) for p in range(parts)]
    u += [dict(kind='deckbig', names=[nm]) for nm in ('fan', 'ring', 'grid91')]
    u += cm.lam_units() + cm.scene_units()
    u += [dict(kind='gen', ps='lat32', lo=lo, hi=hi, n=i) for i, (lo, hi) in enumerate(cm.chunks(len(ms.families('lat32')[0]), 16))]
    u += [dict(kind='big', names=[n]) for n in sorted(cm.BIG)]
    if tier == 'thorough':
        u += [dict(kind='gen', ps=ps, lo=lo, hi=hi, n=i) for ps in ('hexa', 'lat42')
              for i, (lo, hi) in enumerate(cm.chunks(len(ms.families(ps)[0]), 24))]
    return u


def deckable(m):
    """coordinates that a 16 column field carries exactly"""
    return dict(m, pts=[[round(0.25*v, 6) for v in p] for p in m['pts']])


def run(unit, ctx):
    if unit['kind'] == 'group':
        S = ms.families(unit['ps'])[0] if unit['tier'] == 'thorough' else ms.maximal(unit['ps'])
        s = unit['s']
        mp = ['skew', 'neg', 'wobble', 'far'][s % 4]
        m = ms.desc(unit['ps'], S[s], mp, cm.ZS[s % 3], s % 12)
        group(ctx, m, s, bool((s + unit['part']) % 2), unit['which'], unit['part'], unit['parts'], dict(s=s))
    elif unit['kind'] == 'deck':
        s, ps = unit['s'], unit['ps']
        m = deckable(ms.desc(ps, ms.maximal(ps)[s], 'id', cm.ZS[s % 3], s % 12))
        perms = [list(p) for p in itertools.permutations(range(len(m['pts'])))][unit['part']::unit['parts']]
        decks(ctx, m, s, bool((s + unit['part']) % 2), dict(s=s), perms)
    elif unit['kind'] == 'deckbig':
        for nm, m in cm.big_meshes(unit['names']):
            m = deckable(m)
            n = len(m['pts'])
            decks(ctx, m, 2, len(nm) % 2 == 0, dict(mesh=nm), [cm.rotperm(n, q) for q in range(4)])
    elif unit['kind'] == 'scene':
        for k, (nm, m) in enumerate(cm.scene_descs()):
            if unit['lo'] <= k < unit['hi']:
                group(ctx, m, k, bool(k % 2), 'gen', 0, 1, dict(scene=nm), (
                    [cm.scene_lam(i, k) for i in range(len(m['pts']))], [cm.scene_lam(i, k+1) for i in range(len(m['tris']))]))
    elif unit['kind'] in cm.LAMKINDS:
        for m, nodal, pn, pe, tag in cm.lam_list(unit):
            group(ctx, m, 1, nodal, 'gen', 0, 1, tag, (pn, pe))
    elif unit['kind'] == 'gen':
        S = ms.families(unit['ps'])[0]
        for k in range(unit['lo'], min(unit['hi'], len(S))):
            m = ms.desc(unit['ps'], S[k], cm.MAPNAMES[k % 9], cm.ZS[k % 3], k % 12)
            group(ctx, m, k, bool(k % 2), 'gen', 0, 1, dict(s=k))
    else:
        for nm, m in cm.big_meshes(unit['names']):
            group(ctx, m, 1, len(nm) % 2 == 0, 'gen', 0, 1, dict(mesh=nm))
