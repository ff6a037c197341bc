"""The space of conforming planar triangulations explored by the checks.

A *point set* is a list of integer points.  A state of the mesh-building
transition system is a set of non-degenerate triangles over the point set that
contain no other point of the set and have pairwise disjoint interiors; a
transition adds one more triangle.  Every reachable state is a conforming
(partial) triangulation: it may have holes, separate parts, parts joined in one
vertex and unused points.

Maps then carry the integer points to real coordinates.
"""
import itertools
import math
from types import SimpleNamespace

import numpy as np

POINTSETS = {
    'tri': [(0, 0), (3, 0), (1, 2)],
    'quad': [(0, 0), (2, 0), (2, 2), (0, 2)],
    'kite': [(0, 0), (4, -1), (5, 3), (1, 2)],
    'dart': [(0, 0), (4, 1), (1, 1), (1, 4)],
    'quad_c': [(0, 0), (4, 0), (4, 4), (0, 4), (1, 2)],
    'penta': [(0, 0), (3, -1), (5, 2), (2, 4), (-1, 2)],
    'graded': [(0, 0), (200, 0), (200, 200), (0, 200), (3, 1)],
    'tri6': [(0, 0), (4, 0), (0, 4), (2, -1), (3, 3), (-1, 2)],
    'lat32': [(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2, 1)],
    'hexa': [(2, 0), (1, 2), (-1, 2), (-2, 0), (-1, -2), (1, -2), (0, 0)],
    'lat33': [(i, j) for j in range(3) for i in range(3)],
    'lat42': [(i, j) for j in range(2) for i in range(4)],
}


def orient(a, b, c):
    return (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0])


def inside_or_on(p, a, b, c):
    return orient(a, b, p) >= 0 and orient(b, c, p) >= 0 and orient(c, a, p) >= 0


def empty_triangles(pts):
    out = []
    for i, j, k in itertools.combinations(range(len(pts)), 3):
        o = orient(pts[i], pts[j], pts[k])
        if o == 0:
            continue
        t = (i, j, k) if o > 0 else (i, k, j)
        a, b, c = (pts[v] for v in t)
        if any(inside_or_on(pts[q], a, b, c) for q in range(len(pts)) if q not in t):
            continue
        out.append(t)
    return out


def interiors_disjoint(pts, s, t):
    """Separating line among the (CCW) edge lines of two triangles."""
    for u, v in ((s, t), (t, s)):
        for a, b in ((0, 1), (1, 2), (2, 0)):
            if all(orient(pts[u[a]], pts[u[b]], pts[w]) <= 0 for w in v):
                return True
    return False


_cache = {}


def families(name, maxtri=99):
    """Breadth-first exploration of the mesh-building transition system.
    Returns (states, transitions), the states simplest first."""
    key = (name, maxtri)
    if key in _cache:
        return _cache[key]
    pts = POINTSETS[name]
    tris = empty_triangles(pts)
    ok = [[interiors_disjoint(pts, s, t) for t in tris] for s in tris]
    seen = {frozenset()}
    level = [frozenset()]
    states = []
    ntrans = 0
    depth = 0
    while level and depth < maxtri:
        nxt = []
        for st in level:
            for i in range(len(tris)):
                if i in st or not all(ok[i][j] for j in st):
                    continue
                ntrans += 1
                ns = st | {i}
                if ns not in seen:
                    seen.add(ns)
                    nxt.append(ns)
        nxt.sort(key=sorted)
        states.extend(nxt)
        level = nxt
        depth += 1
    res = ([[tris[i] for i in sorted(s)] for s in states], ntrans)
    _cache[key] = res
    return res


def maximal(name):
    """Only the full triangulations (states without successor)."""
    pts = POINTSETS[name]
    tris = empty_triangles(pts)
    sts, nt = families(name)
    out = []
    for s in sts:
        if not any(t not in s and all(interiors_disjoint(pts, t, u) for u in s) for t in tris):
            out.append(s)
    return out


# ---------------------------------------------------------------- maps

def _affine(a, b, c, d, tx, ty):
    return lambda p, i: (a*p[0] + b*p[1] + tx, c*p[0] + d*p[1] + ty)


def _rot(deg, s, tx, ty):
    co, si = math.cos(math.radians(deg)), math.sin(math.radians(deg))
    return _affine(s*co, -s*si, s*si, s*co, tx, ty)


def _wobble(p, i):
    # keeps every orientation of lattice triangles (displacement < 0.09)
    return (p[0] + 0.085*math.sin(2.3*i + 1.1), p[1] + 0.085*math.cos(3.7*i + 0.4))


MAPS = {
    'id': _affine(1, 0, 0, 1, 0, 0),
    'skew': _affine(0.7, 0.31, -0.23, 1.3, -1.9, 0.77),
    'neg': _affine(1.1, 0, 0, 0.8, -7.3, -5.2),
    'mirror': _affine(-1.2, 0.1, 0.05, 0.9, 0.3, -0.4),
    'small': _rot(33., 2e-6, 3e-6, -1e-6),
    'big': _rot(-71., 3e5, 4e5, -9e5),
    'thin': _affine(1.0, 0, 0, 0.04, 0.5, 0.5),
    'wobble': _wobble,
    'far': _rot(12., 1., 300., -200.),
}


def mapped(pts, mp):
    return [[float(v) for v in MAPS[mp](p, i)] for i, p in enumerate(pts)]


def make(pts, tris, z=0.0):
    """Mesh description: plain data."""
    return dict(pts=[list(map(float, p)) for p in pts], tris=[list(map(int, t)) for t in tris], z=float(z))


def desc(name, tris, mp='id', z=0.0, variant=0):
    """variant: deterministic change of vertex orders and element order."""
    pts = mapped(POINTSETS[name], mp)
    return make(pts, reorder(tris, variant), z)


def reorder(tris, variant):
    out = []
    for n, t in enumerate(tris):
        a, b, c = t
        k = (variant * (n + 1) + (variant // 6) * n) % 6
        out.append([(a, b, c), (b, a, c), (b, c, a), (a, c, b), (c, a, b), (c, b, a)][k])
    if variant % 2:
        out = out[::-1]
    return [list(t) for t in out]


VERTEX_ORDERS = [(0, 1, 2), (1, 0, 2), (1, 2, 0), (0, 2, 1), (2, 0, 1), (2, 1, 0)]


def grid(nx, ny, diag, dx=1.0, dy=1.0, x0=0.0, y0=0.0, z=0.0):
    """Structured grid; diag(i, j) in {0, 1} is the direction of the diagonal."""
    pts = [[x0 + dx*i, y0 + dy*j] for j in range(ny+1) for i in range(nx+1)]
    tris = []
    nid = lambda i, j: j*(nx+1) + i
    for j in range(ny):
        for i in range(nx):
            a, b, c, d = nid(i, j), nid(i+1, j), nid(i+1, j+1), nid(i, j+1)
            if diag(i, j):
                tris += [[a, b, c], [a, c, d]]
            else:
                tris += [[a, b, d], [b, c, d]]
    return dict(pts=pts, tris=tris, z=z)


def build(I, m, as3d=None):
    """Mesh description -> meshless mesh through read_delaunay, or through a
    deck with other ids (m['ids']); m['xyz']: numeric type of the positions."""
    pts = np.array(m['pts'], dtype=float)
    if 'ids' in m or 'xyz' in m:
        return _scene(I, m, np.column_stack([pts, np.full(len(pts), m.get('z', 0.0))]))
    if as3d or (as3d is None and m.get('z', 0.0) != 0.0):
        pts = np.column_stack([pts, np.full(len(pts), m.get('z', 0.0))])
    return I.read_delaunay(pts, SimpleNamespace(simplices=np.array(m['tris'], dtype=int)))


def scene_ids(how, n, T):
    """ids of the nodes and elements, in the order of the description"""
    from .checks.c02 import ids
    if how == 'huge':
        return [9*10**7 + 13*((5*i + 3) % n if n % 5 else n - i) for i in range(n)], [31 + 17*k for k in range(T)]
    if how == 'apart':
        return [i + 1 for i in range(n)], [9*10**7 - 5*k for k in range(T)]
    return ids(n, how, 4), ids(T, how, 2)


def _scene(I, m, pts):
    if 'ids' in m:
        import os
        import tempfile
        from .checks.c02 import deck
        nid, eid = scene_ids(m['ids'], len(m['pts']), len(m['tris']))
        text = deck(m, 'free', dict(nodes=nid, elems=eid), 'grids')[0]
        with tempfile.TemporaryDirectory(prefix='mc_scene_') as d:
            with open(os.path.join(d, 'deck.dat'), 'w') as f:
                f.write(text)
            mesh = I.read_mesh(os.path.join(d, 'deck.dat'))
        mesh.mc_nid, mesh.mc_eid = nid, eid
    else:
        mesh = I.read_delaunay(pts, SimpleNamespace(simplices=np.array(m['tris'], dtype=int)))
        nid = range(1, len(pts) + 1)
    for k, p in zip(nid, pts):
        # a deck has fewer digits than the description
        how = m.get('xyz', float)
        mesh.nodes[k].xyz = np.repeat(p, 2)[::2] if how == 'strided' else p.astype(how)
    return mesh


def edge_connected(m):
    tris = [frozenset(t) for t in m['tris']]
    seen = {0}
    todo = [0]
    while todo:
        a = todo.pop()
        for b in range(len(tris)):
            if b not in seen and len(tris[a] & tris[b]) == 2:
                seen.add(b)
                todo.append(b)
    return len(seen) == len(tris)
