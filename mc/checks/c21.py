"""C21: geometry helpers return exact areas, unit vectors and centroids."""
import itertools
import math
from fractions import Fraction as F

import numpy as np

from .. import common as cm, meshspace as ms
from ..impl import I

LEVEL = 'model_checking'
RULE = ('all simple polygons over small lattices by depth-first search, every starting vertex, orientation, transformation '
        'and input form, against exact rational areas; all lattice vectors x scales; all small meshes through node moves')
BOUNDS = {
    'quick': 'simple polygons with 3..9 vertices on the 3 x 3 lattice, 3..7 on 4 x 3, 3..6 on 4 x 4, 3..6 on four 3 x 3 lattices with distances from 1 to 10^6, coordinates of 10 numeric types at the ends of their ranges, star and spiral polygons with up to 40 '
             'vertices, x 9 maps; vectors of {-3..3}^2 and {-2..2}^3, 9 scales; all states of 3 point sets with 4 moves',
    'thorough': '3..12 vertices on 4 x 3, 3..8 on 4 x 4, and all states of 7 point sets',
}
ASSUMPTIONS = ['simple polygons (no self intersection); vertices in line with their neighbours are allowed',
               'nonzero vectors without overflow of the squared length']


def orient(a, b, c):
    return (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0])


def on(p, a, b):
    return orient(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def cross(a, b, c, d):
    """closed segments ab and cd meet"""
    o1, o2, o3, o4 = orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b)
    if o1*o2 < 0 and o3*o4 < 0:
        return True
    return on(c, a, b) or on(d, a, b) or on(a, c, d) or on(b, c, d)


_hit = {}


def meets(a, b, c, d):
    k = (a, b, c, d)
    if k not in _hit:
        _hit[k] = cross(a, b, c, d)
    return _hit[k]


def polygons(nx, ny, nmax, start=None, nmin=3, pts=None):
    """Depth-first search: every simple closed lattice polygon once per
    orientation class (starts at its smallest vertex)."""
    pts = pts or [(i, j) for j in range(ny) for i in range(nx)]

    def free(path, p):
        """may the path be extended to p"""
        last = path[-1]
        for k in range(len(path) - 2):
            if meets(path[k], path[k+1], last, p):
                return False
        if len(path) > 1 and on(p, path[-2], last):
            return False
        return not (len(path) > 1 and on(path[-2], last, p))

    def closes(path):
        a, b = path[-1], path[0]
        for k in range(1, len(path) - 2):
            if meets(path[k], path[k+1], a, b):
                return False
        return not (on(path[-2], a, b) or on(path[1], a, b) or on(b, path[-2], a) or on(a, b, path[1]))

    def rec(path, used):
        if len(path) >= nmin and len(path) >= 3 and pts.index(path[1]) < pts.index(path[-1]) and closes(path):
            yield list(path)
        if len(path) == nmax:
            return
        for p in pts[pts.index(path[0])+1:]:
            if p not in used and free(path, p):
                path.append(p)
                yield from rec(path, used | {p})
                path.pop()
    for s in (pts if start is None else [pts[start]]):
        yield from rec([s], {s})


def area(poly):
    n = len(poly)
    return abs(sum(F(poly[k][0])*F(poly[(k+1) % n][1]) - F(poly[(k+1) % n][0])*F(poly[k][1]) for k in range(n)))/2


FORMS = ['array', 'list', 'tuple', 'readonly', 'strided', 'int']


def put(v, form):
    if form == 'int':
        return [int(x) for x in v] if all(x == int(x) for x in v) else list(v)
    if form == 'list':
        return [float(x) for x in v]
    if form == 'tuple':
        return tuple(float(x) for x in v)
    a = np.array(v, float)
    if form == 'readonly':
        a.setflags(write=False)
    if form == 'strided':
        a = np.repeat(a, 2)[::2]
    return a


def check_poly(ctx, poly, k, everything):
    n = len(poly)
    maps = cm.MAPNAMES if everything else [cm.MAPNAMES[k % 9], 'id']
    for q, mp in enumerate(maps):
        pts = [ms.MAPS[mp](p, i) for i, p in enumerate(poly)]
        if mp == 'wobble':
            # moving the points could make a polygon with touching sides self-intersect: use the affine part
            pts = [(p[0] + 0.25*p[1], p[1]*1.5) for p in poly]
        want = area(pts)
        w = float(want)
        mag = max(abs(p[0]) for p in pts)*sum(abs(pts[i][1] - pts[i-2][1]) for i in range(n))
        rots = range(n) if everything or n <= 4 else [0, 1 + (k + q) % (n-1)]
        for r in rots:
            for rev in (False, True):
                p2 = pts[r:] + pts[:r]
                p2 = p2[::-1] if rev else p2
                got = I.utils.area_of_polygon(put([p[0] for p in p2], FORMS[(k+r+q) % 6]), put([p[1] for p in p2], FORMS[(k+r+q) % 6]))
                ctx.trace()
                ctx.check(got >= 0 and abs(float(got) - w) <= 1e-13*mag + 1e-14*w,
                          'area of polygon %s (map %s, start %d, reversed %s): %r instead of %r' % (poly, mp, r, rev, got, w))
    ctx.outcome(area(poly))


def star(n, inner, cx, cy, s):
    return [(cx + s*(1 if k % 2 else inner)*math.cos(2*math.pi*k/n + .3), cy + s*(1 if k % 2 else inner)*math.sin(2*math.pi*k/n + .3))
            for k in range(n)]


def comb(n, w):
    """saw-tooth polygon with 2 n + 2 vertices, very thin teeth for small w"""
    pts = []
    for k in range(n):
        pts += [(2*k, 0), (2*k + 1, w*(k+1))]
    return pts + [(2*n, 0), (n, -1)]


def big_polygons():
    for n in range(4, 41, 2):
        for inner in (.05, .5, .99):
            for cx, cy, s in ((0, 0, 1), (-30, 40, 2), (1000, -500, .01)):
                yield star(n, inner, cx, cy, s)
    for n in range(1, 18):
        for w in (1e-3, 1, 50):
            yield comb(n, w)


# coordinates of very different distances: points which nearly coincide, thin and long polygons
GRADED = [((0, 1, 400), (0, 3, 1000)), ((0, 1, 10**6), (0, 1, 2)), ((-7, 10**5, 10**5 + 2), (5, 6, 10**5)), ((1, 2, 10**4), (1, 10**4, 10**4 + 1))]


# coordinates whose products and differences leave the range of their own type
TYPES = {'int8': (-128, 3, 127), 'uint8': (0, 100, 255), 'int16': (-32768, 100, 32767), 'uint16': (0, 300, 65535), 'int32': (-2**31, 7, 2**31 - 1),
         'uint32': (1, 2**31, 2**32 - 1), 'int64': (-2**62, 5, 2**62), 'uint64': (0, 2**62, 2**63), '>i2': (-32768, 100, 32767), 'float32': (-3e4, .5, 7e3)}


SCALES = [1., -1., .5, 3., 1e-6, 1e6, 1e-100, 1e100, 1/3.]


def vectors():
    for d, r in ((1, 3), (2, 3), (3, 2)):
        for v in itertools.product(range(-r, r+1), repeat=d):
            if any(v):
                yield v
    for v in itertools.product((0, 1, -2), repeat=5):
        if any(v):
            yield v
    for v in ((1e-9, 1, 0), (1e-8, -1e8, 1), (1e150, 1e150, 0), (3, 4, 12), (1e-150, 0, 0)):
        yield v


def plan(tier):
    u = [dict(kind='poly', nx=3, ny=3, nmax=9, start=s) for s in range(9)]
    u += [dict(kind='poly', nx=4, ny=3, nmax=7 if tier == 'quick' else 12, start=s) for s in range(12)]
    u += [dict(kind='poly', nx=4, ny=4, nmax=6 if tier == 'quick' else 8, start=s) for s in range(16)]
    u += [dict(kind='graded', grid=q, nmax=6 if tier == 'quick' else 8, start=s) for q in range(len(GRADED)) for s in range(9)]
    u += [dict(kind='types', type=t, nmax=7 if tier == 'quick' else 9) for t in sorted(TYPES)]
    u += [dict(kind='big', part=p) for p in range(4)]
    u += [dict(kind='vec', part=p) for p in range(4)]
    sets = ['tri', 'quad_c', 'penta'] if tier == 'quick' else ['tri', 'quad', 'dart', 'kite', 'quad_c', 'penta', 'lat32']
    for ps in sets:
        n = len(ms.families(ps)[0])
        u += [dict(kind='mid', ps=ps, lo=a, hi=b) for a, b in cm.chunks(n, 20)]
    return u


def run(unit, ctx):
    k = unit['kind']
    if k in ('poly', 'graded'):
        if k == 'graded':
            gx, gy = GRADED[unit['grid']]
            ps = polygons(3, 3, unit['nmax'], unit['start'], pts=[(x, y) for y in gy for x in gx])
        else:
            ps = polygons(unit['nx'], unit['ny'], unit['nmax'], unit['start'])
        for q, p in enumerate(ps):
            ctx.trans(len(p))
            if ctx.case(dict(poly=p)):
                ctx.state()
                check_poly(ctx, p, q, q % 7 == 0)
    elif k == 'types':
        t = unit['type']
        vals = TYPES[t]
        cls = np.dtype(t).type
        for q, p in enumerate(polygons(3, 3, unit['nmax'])):
            if not ctx.case(dict(poly=p, type=t)):
                continue
            ctx.state()
            ctx.trans(len(p))
            pts = [(vals[x], vals[2-y]) for x, y in p]
            want = area(pts)
            r = q % len(p)
            pts = (pts[r:] + pts[:r])[::-1 if q % 2 else 1]
            x, y = [v[0] for v in pts], [v[1] for v in pts]
            mag = max(map(abs, x))*sum(abs(y[i] - y[i-2]) for i in range(len(y)))
            for form, (a, b) in {'arrays': (np.array(x, t), np.array(y, t)), 'array and floats': (np.array(x, t), np.array(y, float)),
                                 'floats and array': (np.array(x, float), np.array(y, t)), 'list of scalars': ([cls(v) for v in x], [cls(v) for v in y]),
                                 'columns': tuple(np.array([x, y], t).T.T), 'tuple and array': (tuple(x), np.array(y, t))}.items():
                got = I.utils.area_of_polygon(a, b)
                ctx.trace()
                ctx.check(got >= 0 and abs(float(got) - float(want)) <= (1e-6 if t == 'float32' else 1e-13)*mag,
                          '%s, %s: area of %s is %r instead of %r' % (t, form, pts, got, float(want)))
            ctx.outcome((t, want))
        for v in itertools.product(vals, repeat=3) if t != 'float32' else ():
            if any(v) and ctx.case(dict(type=t, v=v)):
                norm = math.sqrt(float(sum(F(x)**2 for x in v)))
                got = I.utils.unitvec(np.array(v, t))
                ctx.trace()
                ctx.check(np.shape(got) == (3,) and bool(np.all(np.abs(np.asarray(got, float) - np.array([float(x) for x in v])/norm) <= 1e-14)),
                          'unit vector of the %s array %s: %s' % (t, v, got))
    elif k == 'big':
        for q, p in enumerate(big_polygons()):
            if q % 4 == unit['part'] and ctx.case(dict(poly=p)):
                ctx.state()
                ctx.trans(len(p))
                want = area(p)
                mag = max(abs(v[0]) for v in p)*sum(abs(p[i][1] - p[i-2][1]) for i in range(len(p)))
                for r in range(len(p)):
                    for rev in (False, True):
                        p2 = (p[r:] + p[:r])[::-1 if rev else 1]
                        got = I.utils.area_of_polygon(put([v[0] for v in p2], FORMS[r % 5]), put([v[1] for v in p2], FORMS[r % 5]))
                        ctx.trace()
                        ctx.check(got >= 0 and abs(float(got) - float(want)) <= 1e-13*mag, 'area %r instead of %r' % (got, float(want)))
                ctx.outcome(float(want))
    elif k == 'vec':
        for q, v in enumerate(vectors()):
            if q % 4 != unit['part']:
                continue
            for s in SCALES:
                if max(abs(x) for x in v)*abs(s) > 1e150 or min(abs(x) for x in v if x)*abs(s) < 1e-150:
                    continue
                if not ctx.case(dict(v=v, s=s)):
                    continue
                ctx.state()
                ctx.trans()
                a = np.array(v, float)*s
                norm = math.sqrt(float(sum(F(x)**2 for x in a)))
                for form in ('array', 'readonly', 'strided', 'int') if s == 1. else ('array',):
                    b = np.array([int(x) for x in v]) if form == 'int' and all(x == int(x) and abs(x) < 1e6 for x in v) else put(a, 'array' if form == 'int' else form)
                    got = I.utils.unitvec(b)
                    ctx.trace()
                    ctx.check(np.shape(got) == a.shape and bool(np.all(np.abs(got - a/norm) <= 1e-14)), 'unit vector of %s: %s' % (a, got))
                ctx.outcome(tuple(np.sign(a)))
    else:
        mids(unit, ctx)


def mids(unit, ctx):
    """The mid-points follow the nodes through every step of a fixed family of moves."""
    ps = unit['ps']
    sts, _ = ms.families(ps)
    for q in range(unit['lo'], unit['hi']):
        m = ms.desc(ps, sts[q], cm.MAPNAMES[q % 9], cm.ZS[q % 3], q % 12)
        if not ctx.case(dict(ps=ps, k=q)):
            continue
        ctx.state()
        mesh = ms.build(I, m)
        n = len(m['pts'])
        pos = [np.array(mesh.nodes[i+1].xyz) for i in range(n)]

        def verify(when):
            for t, el in enumerate(mesh.elements[i+1] for i in range(len(m['tris']))):
                want = sum(pos[v] for v in m['tris'][t])/3
                got = I.utils.getMid(el)
                ctx.trace()
                ctx.check(np.shape(got) == (3,) and bool(np.all(np.abs(got - want) <= 1e-13*(1e-3 + max(np.abs(pos[v]).max() for v in m['tris'][t])))),
                          'mid-point of an element %s: %s instead of %s' % (when, got, want))
            for e in mesh.edges.values():
                a, b = pos[e.n1.nid-1], pos[e.n2.nid-1]
                got = e.getMid()
                ctx.trace()
                ctx.check(np.shape(got) == (3,) and bool(np.all(np.abs(got - (a+b)/2) <= 1e-13*(1e-3 + np.abs(a).max() + np.abs(b).max()))),
                          'mid-point of an edge %s' % when)
                back = I.Edge(e.n2, e.n1)
                ctx.check(bool(np.all(np.abs(back.getMid() - (a+b)/2) <= 1e-13*(1e-3 + np.abs(a).max() + np.abs(b).max()))), 'mid-point of a new edge')
        verify('as read')
        v = q % n
        mesh.nodes[v+1].xyz = pos[v] = pos[v] + np.array([.3, -.2, .7])
        ctx.trans()
        verify('after a node got a new position')
        w = (q+1) % n
        mesh.nodes[w+1].xyz[1] += 2.5
        pos[w] = pos[w] + np.array([0, 2.5, 0])
        ctx.trans()
        verify('after a node was moved in place')
        for nd in mesh.nodes.values():
            nd.prop = cm.gen(nd.nid % 3)
        for el in mesh.elements.values():
            el.prop = cm.gen(el.eid % 3)
        I.calc_k0(mesh, True)
        ctx.trans()
        verify('after an assembly')
        mesh.nodes[v+1].xyz = pos[v] = pos[v] - np.array([.1, .1, .1])
        ctx.trans()
        verify('after an assembly and another move')
        ctx.outcome((ps, q))

