"""C24: invalid inputs are refused instead of producing a wrong matrix."""
import itertools

import numpy as np

from .. import common as cm, meshspace as ms, refmodel as rf
from ..impl import I
from . import c02, c07

LEVEL = 'model_checking'
RULE = ('the state of a mesh is the set of places that have a property; every state, and every transition that sets or '
        'clears one property on the living mesh, is executed for both sources; all sets of triangles over a few points in '
        'which an edge belongs to more than two, each refused, repaired on the living mesh and assembled')
BOUNDS = {
    'quick': 'all subsets of nodes x all subsets of elements x both sources on all states of 4 point sets (tri, quad, kite, '
             'dart), all node subsets or element subsets on maximal states of 2 more; all subsets of each source on decks of '
             'those states with every identifier map and card order; an element surrounded by three others in all 24 lists; all sets of 3 and 4 of the triangles of '
             '5 points that share an edge more than twice, 3 element orders; every step between two subsets of the '
             'triangles on a living mesh for all such sets of 3 and a fifth of those of 4; fans of 3 to 9 triangles on one edge',
    'thorough': 'all subsets on all states of 7 point sets, sets of up to 6 triangles of 5 points and 4 of 6 points',
}
ASSUMPTIONS = ['a missing property is the value None', 'missing properties and over-shared edges are not combined']


def expect(ctx, mesh, nodal, missing, what):
    """missing: the selected source lacks a needed property."""
    ctx.trans()
    ctx.trace()
    try:
        K = I.calc_k0(mesh, nodal)
    except ValueError:
        ctx.check(missing, '%s: refused although nothing is missing' % what)
        return None
    except Exception as e:
        ctx.fail('%s: %s instead of %s: %s' % (what, type(e).__name__, 'ValueError' if missing else 'a matrix', e))
        return None
    ctx.check(not missing, '%s: accepted although a needed property is missing' % what)
    return np.array(K)


def walk(ctx, m, tag, joint, only=None, deck=None):
    """All subsets of the places having a property, and every single change."""
    n, T = len(m['pts']), len(m['tris'])
    g = rf.Geo(m)
    used = {v for t in m['tris'] for v in t}
    pn, pe = [cm.gen(i % 3) for i in range(n)], [cm.gen((i+1) % 3) for i in range(T)]
    ref = {nodal: rf.k0(g, pn if nodal else pe, nodal) for nodal in (True, False)}
    if deck:
        mesh, nid, eid = c07.through_deck(m, *deck)
        at = {'n': [mesh.nodes[k] for k in nid], 'e': [mesh.elements[k] for k in eid]}
    else:
        mesh = ms.build(I, m)
        at = {'n': [mesh.nodes[i+1] for i in range(n)], 'e': [mesh.elements[i+1] for i in range(T)]}
    places = [('n', i) for i in range(n)] + [('e', i) for i in range(T)]
    P = len(places)
    have = {p: False for p in places}

    def put(p, on):
        have[p] = on
        at[p[0]][p[1]].prop = (pn if p[0] == 'n' else pe)[p[1]] if on else None

    def ask(what):
        for nodal in (True, False):
            miss = any(not have['n', v] for v in used) if nodal else any(not have['e', t] for t in range(T))
            K = expect(ctx, mesh, nodal, miss, '%s, %s source' % (what, 'node' if nodal else 'element'))
            if K is not None:
                idx = [nd.index for nd in at['n']]
                R, A = ref[nodal]
                ctx.check(rf.close(rf.from_impl(K, idx), R, A), '%s, %s source: wrong matrix' % (what, 'node' if nodal else 'element'))

    # as read, nothing has a property
    if ctx.case(dict(tag=tag, code='as read')):
        ctx.state()
        ask('as read')
    if joint:
        # Gray code: visits every subset, changes one property at a time
        codes = [k ^ (k >> 1) for k in range(1 << P)]
        groups = [codes]
    else:
        # every subset of one source with the other one empty, and with it complete
        groups = []
        for lo, hi, other in only or ((0, n, 0), (n, P, 0), (0, n, ((1 << P) - 1) ^ ((1 << n) - 1)), (n, P, (1 << n) - 1)):
            groups.append([((k ^ (k >> 1)) << lo) | other for k in range(1 << (hi - lo))])
    cur = None
    for codes in groups:
        for code in codes:
            if not ctx.case(dict(tag=tag, code=code)):
                continue
            ctx.state()
            for b, p in enumerate(places):
                on = bool(code >> b & 1)
                if cur is None or have[p] != on:
                    put(p, on)
            cur = code
            ask('properties at %s' % [p for p in places if have[p]])
    ctx.outcome((tag, len(places)))
    # complete -> every single property removed and restored, alternately through both sources
    for p in places:
        put(p, True)
    for p in places:
        if not ctx.case(dict(tag=tag, toggle=p)):
            continue
        ctx.state()
        put(p, False)
        ask('only %s missing' % (p,))
        put(p, True)
        ask('%s restored' % (p,))


# ------------------------------------------------- over-shared edges

POINTS5 = [(0., 0.), (2., .3), (1.2, 1.7), (.8, -1.1), (2.6, 2.4)]
POINTS6 = POINTS5 + [(-1.5, .9)]


def fan_lists(n):
    """n triangles on one edge, with the edge at every place of its triangles, before, among and after ordinary triangles"""
    pts = [(0., 0.), (2., .3)] + [(.3 + .2*i, (1.5 + .3*i)*(-1)**i) for i in range(n)] + [(9., 0.), (10., 0.), (9., 1.), (10., 1.2)]
    rest = [[n+2, n+3, n+4], [n+3, n+5, n+4]]
    for a, b in ((0, 1), (1, 0)):
        for o in range(6):
            fan = [[(a, b, 2+i)[j] for j in ms.VERTEX_ORDERS[(o + i*(o % 3))% 6]] for i in range(n)]
            for lo in range(3):
                for hi in range(3):
                    f = fan[::-1] if lo == 1 else fan
                    cut = (0, n//2, n)[hi]
                    yield pts, f[:cut] + rest[:lo] + f[cut:] + rest[lo:]


def edges_of(tris):
    e = {}
    for k, t in enumerate(tris):
        for a, b in ((0, 1), (1, 2), (2, 0)):
            e.setdefault(frozenset((t[a], t[b])), []).append(k)
    return e


def remove(mesh, eid):
    """Takes one triangle out of the mesh with public attributes only."""
    el = mesh.elements.pop(eid)
    for key in [k for k, e in mesh.edges.items() if any(t is el for t in e.trias)]:
        e = mesh.edges[key]
        e.trias.remove(el)
        if not e.trias:
            for nd in (e.n1, e.n2):
                nd.edges.discard(e)
            del mesh.edges[key]
    for nd in el.nodes:
        nd.trias.discard(eid)


def restore(mesh, el):
    """Puts a removed triangle back, in the order of the identifiers."""
    mesh.elements[el.eid] = el
    for e in el.edges:
        key = tuple(sorted(e.node_ids))
        if key not in mesh.edges:
            mesh.edges[key] = e
            e.n1.edges.add(e)
            e.n2.edges.add(e)
        e.trias.append(el)
        e.trias.sort(key=lambda t: t.eid)
    for nd in el.nodes:
        nd.trias.add(el.eid)


def subsets(T):
    return [[k for k in range(T) if c >> k & 1] for c in range(1, 1 << T)]


def living(ctx, pts, tris, order, tag, judge, z=0.0):
    """every set of the triangles, and every step which takes one away or puts one back, on a mesh which has been assembled"""
    T, n = len(tris), len(pts)
    m = ms.make(pts, ms.reorder(tris, order), z)
    pn, pe = [cm.gen(i % 3) for i in range(n)], [cm.gen((i+1) % 3) for i in range(T)]
    for S in subsets(T):
        for k in range(T):
            S2 = sorted(set(S) ^ {k})
            if not S2 or not ctx.case(dict(tag=tag, live=S, step=k)):
                continue
            ctx.state()
            ctx.trans()
            mesh = ms.build(I, m)
            cm.assign(mesh, pn, pe)
            els = dict(mesh.elements)
            judge(ctx, mesh, m, list(range(T)), pn, pe)
            for q in sorted(set(range(T)) - set(S)):
                remove(mesh, q+1)
            judge(ctx, mesh, m, S, pn, pe)
            if k in S:
                remove(mesh, k+1)
            else:
                restore(mesh, els[k+1])
            judge(ctx, mesh, m, S2, pn, pe)
            ctx.outcome((tag, S, k))


def judge_over(ctx, mesh, m, S, pn, pe):
    """refused where an edge has more than two triangles, else the matrix of the definition"""
    tris = [m['tris'][k] for k in S]
    over = any(len(v) > 2 for v in edges_of(tris).values())
    g = None
    for nodal in (True, False):
        ctx.trace()
        try:
            K = np.array(I.calc_k0(mesh, nodal))
        except NotImplementedError:
            ctx.check(over, 'triangles %s are refused' % tris)
            continue
        except Exception as e:
            ctx.fail('triangles %s: %r' % (tris, e))
            continue
        if not ctx.check(not over, 'triangles %s with an edge of more than two were assembled' % tris):
            continue
        if not conforming(m['pts'], tris):
            continue
        g = g or rf.Geo(dict(m, tris=tris))
        R, A = rf.k0(g, pn if nodal else [pe[k] for k in S], nodal)
        K = rf.from_impl(K, cm.index_of(mesh, len(pn)))
        ctx.check(rf.close(K, R, A), 'triangles %s left of %s: %s' % (tris, m['tris'], rf.worst(K, R, A)))


def nonmanifold(ctx, pts, tris, order, tag):
    tris = ms.reorder(tris, order)
    m = ms.make(pts, tris, 0.0)
    mesh = ms.build(I, m)
    n = len(pts)
    pn = [cm.gen(i % 3) for i in range(n)]
    pe = [cm.gen((i+1) % 3) for i in range(len(tris))]
    cm.assign(mesh, pn, pe)
    for nodal in (True, False, True):
        ctx.trans()
        ctx.trace()
        try:
            I.calc_k0(mesh, nodal)
            ctx.fail('%s: a mesh with an edge of more than two triangles was assembled' % (tris,))
        except NotImplementedError:
            ctx.check(True, '')
        except Exception as e:
            ctx.fail('%s: %s instead of NotImplementedError' % (tris, type(e).__name__))
    # repair on the living mesh
    live = list(range(len(tris)))
    while True:
        over = [ks for ks in edges_of([tris[k] for k in live]).values() if len(ks) > 2]
        if not over:
            break
        k = live[over[0][-1]]
        ctx.trans()
        remove(mesh, k+1)
        live.remove(k)
    left = [tris[k] for k in live]
    if not conforming(pts, left):
        return False
    g = rf.Geo(dict(m, tris=left))
    for nodal in (True, False):
        K = I.calc_k0(mesh, nodal)
        ctx.trace()
        R, A = rf.k0(g, pn if nodal else [pe[k] for k in live], nodal)
        ctx.check(rf.close(rf.from_impl(K, cm.index_of(mesh, n)), R, A), 'repaired mesh %s: %s' % (
            left, rf.worst(rf.from_impl(K, cm.index_of(mesh, n)), R, A)))
    return True


def conforming(pts, tris):
    """two triangles of an edge lie on different sides"""
    for e, ks in edges_of(tris).items():
        if len(ks) == 2:
            a, b = sorted(e)
            s = [ms.orient(pts[a], pts[b], pts[[v for v in tris[k] if v not in e][0]]) for k in ks]
            if s[0]*s[1] >= 0:
                return False
    return True


def over_shared(npts, sizes):
    all_t = list(itertools.combinations(range(npts), 3))
    for k in sizes:
        for tris in itertools.combinations(all_t, k):
            if any(len(v) > 2 for v in edges_of(tris).values()):
                yield [list(t) for t in tris]


def plan(tier):
    u = []
    small = ['tri', 'quad', 'kite', 'dart']
    for ps in small:
        n = len(ms.families(ps)[0])
        u += [dict(kind='walk', ps=ps, k=k, joint=True) for k in range(n)]
    for ps in ('quad_c', 'penta'):
        sts = ms.families(ps)[0]
        ks = range(len(sts)) if tier == 'thorough' else [k for k in range(len(sts)) if sts[k] in ms.maximal(ps) or k % 9 == 0]
        u += [dict(kind='walk', ps=ps, k=k, joint=tier == 'thorough' and len(sts[k]) <= 4) for k in ks]
    for ps in small:
        u += [dict(kind='decks', ps=ps, part=p, parts=2) for p in range(2)]
    u += [dict(kind='orders', lo=lo, hi=hi) for lo, hi in cm.chunks(24, 3)]
    u += [dict(kind='living', size=3, part=p, parts=4) for p in range(4)]
    u += [dict(kind='living', size=4, part=p, parts=40 if tier == 'quick' else 8) for p in range(8)]
    u += [dict(kind='fans', n=n) for n in range(3, 10)]
    if tier == 'quick':
        u += [dict(kind='over', pts=5, sizes=[3, 4], part=p, parts=6) for p in range(6)]
    else:
        u += [dict(kind='over', pts=5, sizes=[3, 4, 5, 6], part=p, parts=24) for p in range(24)]
        u += [dict(kind='over', pts=6, sizes=[3, 4], part=p, parts=24) for p in range(24)]
    return u


def run(unit, ctx):
    if unit['kind'] == 'orders':
        # a triangle between three others, at every place of every list
        full = [s for s in ms.maximal('tri6') if any(sorted(t) == [0, 1, 2] for t in s)][0]
        perms = list(itertools.permutations(full))
        for k in range(unit['lo'], unit['hi']):
            m = ms.make(ms.mapped(ms.POINTSETS['tri6'], cm.MAPNAMES[k % 9]), ms.reorder(perms[k], 2*(k % 6)), cm.ZS[k % 3])
            P = len(m['pts'])
            walk(ctx, m, 'tri6/%d' % k, False, [(P, P + 4, (1 << P) - 1), (0, P, 15 << P)][:1 + (k == 0)])
        return
    if unit['kind'] == 'decks':
        ps = unit['ps']
        combos = list(itertools.product(ms.families(ps)[0], c02.IDMAPS, c02.ORDERS))
        for q, (st, idmap, order) in enumerate(combos):
            if q % unit['parts'] == unit['part']:
                m = ms.desc(ps, st, 'skew', cm.ZS[q % 3], q % 12)
                walk(ctx, m, '%s/deck %d' % (ps, q), False, None if len(st) == len(ms.maximal(ps)[0]) or q % 5 == 0 else (), (idmap, order))
        return
    if unit['kind'] == 'walk':
        ps, k = unit['ps'], unit['k']
        m = ms.desc(ps, ms.families(ps)[0][k], cm.MAPNAMES[k % 9], cm.ZS[k % 3], k % 12)
        walk(ctx, m, '%s/%d' % (ps, k), unit['joint'])
        return
    if unit['kind'] == 'fans':
        for q, (pts, tris) in enumerate(fan_lists(unit['n'])):
            if ctx.case(dict(tris=tris)):
                ctx.state()
                if nonmanifold(ctx, pts, tris, 0, q):
                    ctx.count('repaired')
                ctx.outcome(tris)
        return
    if unit['kind'] == 'living':
        for q, tris in enumerate(over_shared(5, [unit['size']])):
            if q % unit['parts'] == unit['part']:
                living(ctx, POINTS5, tris, q % 12, q, judge_over)
        return
    pts = POINTS5 if unit['pts'] == 5 else POINTS6
    for q, tris in enumerate(over_shared(unit['pts'], unit['sizes'])):
        if q % unit['parts'] != unit['part']:
            continue
        for order in (0, 1 + q % 5, 6 + q % 6):
            if ctx.case(dict(tris=tris, order=order)):
                ctx.state()
                if nonmanifold(ctx, pts, tris, order, q):
                    ctx.count('repaired')
                ctx.outcome((q, order))
