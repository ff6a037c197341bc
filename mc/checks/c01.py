"""C01: the triangulation reader builds the exact mesh topology."""
import itertools
from types import SimpleNamespace

import numpy as np

from .. import common as cm, meshspace as ms, topo
from ..impl import I

LEVEL = 'model_checking'
RULE = ('states are triangle lists over labelled vertices, transitions append one triangle; every list is handed to '
        'read_delaunay and the returned mesh compared with the incidence structure computed from the list alone')
BOUNDS = {
    'quick': 'all lists of 1 and 2 ordered triangles on 4 and 5 vertices, all lists of 3 ordered triangles on 4 '
             'vertices, all 1023 sets of vertex triples on 5 vertices, every state of the 2x3 lattice and the hexagon, '
             'scipy Delaunay of every subset of the 3x3 lattice, 13 input forms, large meshes, all ways in which 3 to 6 points coincide, fans of up to 9 triangles on one edge, up to 66000 points',
    'thorough': 'as quick, plus all lists of 3 triangles on 5 vertices up to the order of the first, all sets of up to 5 '
                'triples on 6 vertices, 2x4 and 3x3 lattices, every list of 2 triangles in every input form',
}
ASSUMPTIONS = ['simplices is a sequence of index triples as scipy.spatial.Delaunay gives it']

P2 = [[0.0, 0.0], [2.0, 0.25], [1.5, 2.0], [-0.5, 1.25], [3.0, 3.5], [-2.0, -1.0], [4.0, -3.0]]
P2I = [[0, 0], [2, 0], [2, 2], [0, 2], [5, 4], [-2, -1], [4, -3]]


def ordered(n):
    return [p for c in itertools.combinations(range(n), 3) for p in itertools.permutations(c)]


FORMS = ['arr2', 'arr3', 'list2', 'tuple2', 'list3', 'int2', 'int3', 'intlist2', 'f32', 'fortran', 'listarr',
         'simplist', 'simp32']


def formed(pts, tris, form):
    """points, simplices, expected xyz"""
    p = [list(map(float, q)) for q in pts]
    z = [q + [0.3*i - 0.5] for i, q in enumerate(p)]
    s = np.array(tris, dtype=int)
    flat = [q + [0.0] for q in p]
    pi = [[int(round(v)) for v in q] for q in pts]
    if form == 'arr2':
        return np.array(p), s, flat
    if form == 'plain3':
        return np.array(p), s, p
    if form == 'arr3':
        return np.array(z), s, z
    if form == 'list2':
        return p, s, flat
    if form == 'tuple2':
        return tuple(tuple(q) for q in p), s, flat
    if form == 'list3':
        return z, s, z
    if form == 'int2':
        return np.array(pi), s, [q + [0] for q in pi]
    if form == 'int3':
        return np.array([q + [i] for i, q in enumerate(pi)]), s, [q + [i] for i, q in enumerate(pi)]
    if form == 'intlist2':
        return pi, s, [q + [0] for q in pi]
    if form == 'f32':
        a = np.array(p, dtype=np.float32)
        return a, s, [[float(v) for v in q] + [0.0] for q in a]
    if form == 'fortran':
        return np.asfortranarray(np.array(z)), s, z
    if form == 'listarr':
        return [np.array(q) for q in z], s, z
    if form == 'simplist':
        return np.array(p), [list(t) for t in tris], flat
    if form == 'simp32':
        return np.array(p), s.astype(np.int32), flat
    raise KeyError(form)


def verify(ctx, pts, tris, form):
    P, S, xyz = formed(pts, tris, form)
    mesh = I.read_delaunay(P, SimpleNamespace(simplices=S))
    ctx.trace()
    topo.verify(ctx, mesh, list(range(1, len(pts)+1)), xyz,
                list(range(1, len(tris)+1)), [[v+1 for v in t] for t in tris])
    ctx.outcome((len(pts), tris))


def plan(tier):
    u = [dict(kind='count', n=n) for n in (66000, 33000, 300)]
    u += [dict(kind='lists', n=n, k=1, first=None) for n in (3, 4, 5)]
    u += [dict(kind='lists', n=4, k=2, first=list(f)) for f in ordered(4)]
    u += [dict(kind='lists', n=5, k=2, first=list(f)) for f in ordered(5)]
    u += [dict(kind='lists', n=4, k=3, first=list(f)) for f in ordered(4)]
    u += [dict(kind='sets', n=5, lo=lo, hi=hi, kmax=10) for lo, hi in cm.chunks(1023, 64)]
    u += cm.cover_units('lat32', 80) + cm.cover_units('hexa', 80)
    u += [dict(kind='forms', i=i) for i in range(len(FORMS))]
    u += [dict(kind='scipy', lo=lo, hi=hi) for lo, hi in cm.chunks(512, 64)]
    u += [dict(kind='big', names=[n]) for n in sorted(cm.BIG)]
    u += [dict(kind='places', n=n) for n in (3, 4, 5, 6)]
    u += [dict(kind='fans', n=n) for n in range(1, 10)]
    if tier == 'thorough':
        u += [dict(kind='lists', n=5, k=3, first=list(f)) for f in itertools.combinations(range(5), 3)]
        u += [dict(kind='sets', n=6, lo=lo, hi=hi, kmax=5) for lo, hi in cm.chunks(21699, 400)]
        u += cm.cover_units('lat42', 100) + cm.cover_units('lat33', 150, maxtri=4)
        u += [dict(kind='forms2', i=i, j=j) for i in range(len(FORMS)) for j in range(0, 24, 6)]
    return u


_sets = {}


def triple_sets(n, kmax):
    if (n, kmax) not in _sets:
        tri = list(itertools.combinations(range(n), 3))
        _sets[n, kmax] = [c for k in range(1, kmax+1) for c in itertools.combinations(tri, k)]
    return _sets[n, kmax]


def partitions(n):
    out = [[0]]
    for _ in range(n-1):
        out = [p + [k] for p in out for k in range(max(p) + 2)]
    return out


def places(unit, ctx):
    """points at the same place stay points of their own: all ways in which points coincide"""
    n = unit['n']
    lists = [[], [[0, 1, 2]], [[n-1, 0, n-2]], [[0, 1, 2], [0, n-1, 1]], [[a, (a+1) % n, (a+2) % n] for a in range(n)],
             [list(t) for t in itertools.combinations(range(n), 3)][:10]]
    for k, part in enumerate(partitions(n)):
        for q, tris in enumerate(lists):
            for form in ('plain3', 'list2', 'int3', 'arr2')[(k + q) % 2::2]:
                if ctx.case(dict(n=n, places=part, tris=q, form=form)):
                    ctx.state()
                    ctx.trans()
                    verify(ctx, [P2[v] + [.5]*(form == 'plain3') for v in part], tris, form)
                    ctx.outcome((part, q))


def run(unit, ctx):
    kind = unit['kind']
    if kind == 'places':
        return places(unit, ctx)
    if kind == 'lists':
        n, k = unit['n'], unit['k']
        alph = ordered(n)
        if unit['first'] is None:
            it = itertools.product(alph, repeat=k)
        else:
            it = ((tuple(unit['first']),) + r for r in itertools.product(alph, repeat=k-1))
        for q, tris in enumerate(it):
            if ctx.case(dict(n=n, tris=tris)):
                ctx.state()
                ctx.trans()
                # one unused point in every third list
                pts = P2[:n + (q % 3 == 0)]
                verify(ctx, pts, [list(t) for t in tris], 'arr2' if q % 2 else 'arr3')
    elif kind == 'sets':
        S = triple_sets(unit['n'], unit['kmax'])
        for q in range(unit['lo'], min(unit['hi'], len(S))):
            if ctx.case(dict(n=unit['n'], tris=S[q])):
                ctx.state()
                ctx.trans(len(S[q]))
                verify(ctx, P2[:unit['n']], ms.reorder(S[q], q % 12), 'arr3' if q % 2 else 'list2')
    elif kind == 'cover':
        for k, m in cm.states(unit, ctx):
            if ctx.case(dict(k=k, m=m)):
                verify(ctx, m['pts'], m['tris'], FORMS[k % 2])
    elif kind == 'forms':
        form = FORMS[unit['i']]
        for n in (3, 4, 5):
            for t in ordered(n):
                if ctx.case(dict(form=form, n=n, t=t)):
                    ctx.state()
                    verify(ctx, P2[:n], [list(t)], form)
    elif kind == 'forms2':
        form = FORMS[unit['i']]
        alph = ordered(4)
        for a in alph[unit['j']:unit['j']+6]:
            for b in alph:
                if ctx.case(dict(form=form, tris=[a, b])):
                    ctx.state()
                    verify(ctx, P2I[:4], [list(a), list(b)], form)
    elif kind == 'scipy':
        from scipy.spatial import Delaunay
        lat = [(i, j) for j in range(3) for i in range(3)]
        for mask in range(unit['lo'], unit['hi']):
            pts = np.array([lat[i] for i in range(9) if mask >> i & 1], float).reshape(-1, 2)
            pts = pts*[1.0, 0.7] - [0.4, 0.9]
            if len(pts) < 3 or np.linalg.matrix_rank(pts-pts[0]) < 2:
                continue
            if not ctx.case(dict(mask=mask)):
                continue
            ctx.state()
            tri = Delaunay(pts)
            for three in (False, True):
                P = np.column_stack([pts, np.full(len(pts), 2.0)]) if three else pts
                mesh = I.read_delaunay(P, tri)
                ctx.trace()
                xyz = [list(p) + [2.0 if three else 0.0] for p in pts]
                topo.verify(ctx, mesh, list(range(1, len(pts)+1)), xyz,
                            list(range(1, len(tri.simplices)+1)), (tri.simplices+1).tolist())
            ctx.outcome(tri.simplices.tolist())
    elif kind == 'fans':
        # n triangles over one edge, the edge anywhere in each of them
        n = unit['n']
        if n < 5:
            it = itertools.product(range(6), repeat=n)
        else:
            it = [[(a*i + b*(i//2) + c) % 6 for i in range(n)] for a in range(6) for b in range(6) for c in range(6)]
        pts = [[0.5, 0.25, 0.0], [2.0, -1.0, 0.0]] + [[np.cos(i), np.sin(i), 0.5*i] for i in range(n)] + [[3.0, 3.0, 3.0]]
        for q, combo in enumerate(it):
            a, b = (0, 1) if q % 2 else (n+1, n//2)
            rest = [v for v in range(n+2) if v not in (a, b)]
            tris = [[(a, b, w)[j] for j in ms.VERTEX_ORDERS[o]] for o, w in zip(combo, rest)]
            for extra in (0, 1):
                tt = tris[:n//2] + [[rest[0], n+2, rest[-1]] if n > 1 else [a, n+2, rest[0]]]*extra + tris[n//2:]
                if ctx.case(dict(n=n, tris=tt)):
                    ctx.state()
                    ctx.trans(len(tt))
                    verify(ctx, [p[:2] for p in pts] if q % 3 else pts, tt, 'arr2' if q % 3 else 'plain3')
    elif kind == 'count':
        # numbers beyond the range of short integers; triangles at both ends of the list
        n = unit['n']
        if ctx.case(dict(n=n)):
            ctx.state()
            pts = [[i % 257 - 100.5, i // 257 * 1.25] for i in range(n)]
            tris = [[i, i+1, i+257] for i in (0, 1, 30, n-258, n-259)] + [[n-1, 0, n//2], [0, n-1, 254], [n//2, 255, 256]]
            verify(ctx, pts, tris, 'arr2')
    elif kind == 'big':
        for nm, m in cm.big_meshes(unit['names']):
            if ctx.case(dict(mesh=nm)):
                ctx.state()
                verify(ctx, m['pts'], m['tris'], 'arr2')
                verify(ctx, m['pts'], m['tris'], 'list3')
