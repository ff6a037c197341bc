"""C03: smoothing domains tile the mesh with outward unit normals."""
import itertools

import numpy as np

from .. import common as cm, meshspace as ms, refmodel as rf
from ..impl import I

LEVEL = 'model_checking'
RULE = ('every state of the mesh-building transition system is built for real; the domain of every edge is compared '
        'with the polygon through the edge nodes and the adjacent centroids (as a cyclic sequence, in either '
        'direction) and its segments with the sides of that polygon')
BOUNDS = {
    'quick': '7 point sets completely x 9 maps x 3 vertex/element order variants; all states of the 2x3 and 2x4 '
             'lattices and of the hexagon; every vertex order and element order of two- and three-triangle meshes; ' + cm.SCENETEXT,
    'thorough': 'as quick plus the 3x3 lattice to 4 triangles, its 64 full triangulations, more variants',
}
ASSUMPTIONS = ['planar meshes with constant z']


def plan(tier):
    u = []
    for v in (0, 5, 8) if tier == 'quick' else range(12):
        u += cm.full_units(cm.SMALL, cm.MAPNAMES, size=40, variant=v)
    for ps in ('lat32', 'hexa', 'lat42'):
        u += cm.cover_units(ps, 40)
    u += [dict(kind='orders', ps=ps, i=i) for ps in ('kite', 'dart') for i in range(6)]
    u += [dict(kind='big', names=[n]) for n in sorted(cm.BIG)]
    u += cm.scene_units()
    if tier == 'thorough':
        u += cm.cover_units('lat33', 80, maxtri=4)
        u += [dict(kind='max', lo=lo, hi=hi) for lo, hi in cm.chunks(64, 8)]
    return u


def same_polygon(got, want, tol):
    if len(got) > 1 and np.abs(got[0]-got[-1]).max() <= tol:
        got = got[:-1]                     # closed by repeating the first vertex
    if len(got) != len(want):
        return False
    for seq in (want, want[::-1]):
        for s in range(len(want)):
            if np.abs(np.roll(seq, s, axis=0) - got).max() <= tol:
                return True
    return False


def verify(ctx, m, nodal, k, props=None):
    mesh = ms.build(I, m)
    n = len(m['pts'])
    p = cm.gen(k % 3)
    if props is None:
        props = [p]*n, [p]*len(m['tris'])
    cm.assign(mesh, *props)
    nid, eid = cm.mesh_ids(mesh)
    node = {nid(i): i for i in range(n)}
    tria = {eid(i): i for i in range(len(m['tris']))}
    I.calc_k0(mesh, nodal)
    ctx.trace()
    g = rf.Geo(m)
    z = m['z']
    X = np.column_stack([g.xy, np.full(n, z)])
    C = [np.append(c, z) for c in g.cent]
    size = np.abs(X).max() + 1e-300
    ext = max(np.ptp(g.xy[:, 0]), np.ptp(g.xy[:, 1]))
    tol = 1e-11*size
    ntol = 1e-9*size/min(g.length(*e) for e in g.edges)
    atol = 1e-10*max(size*ext, ext*ext)
    if not ctx.check(len(mesh.edges) == len(g.edges), 'number of edges'):
        return
    got_edges = {tuple(sorted((node[e.n1.nid], node[e.n2.nid]))): e for e in mesh.edges.values()}
    tot = 0.0
    share = np.zeros(len(g.tris))
    for e, ts in g.edges.items():
        ed = got_edges.get(e)
        if not ctx.check(ed is not None, 'edge missing', edge=e):
            return
        i, j = e
        area = sum(g.area[t] for t in ts)/3
        ctx.check(abs(ed.Ac-area) <= atol, 'area of the domain of edge %s: %r instead of %r' % (e, ed.Ac, area))
        tot += ed.Ac
        # polygon
        want = [X[i], C[ts[0]], X[j]] + ([C[ts[1]]] if len(ts) == 2 else [])
        sd = np.asarray(ed.sdomain, float)
        ctx.check(sd.ndim == 2 and sd.shape[1] == 3 and same_polygon(sd, np.array(want), tol),
                  'smoothing domain of edge %s is not the polygon of its nodes and centroids' % (e,), got=sd)
        # segments
        segs = []
        for t in ts:
            for v in (i, j):
                segs.append((t, v, (X[v], C[t])))
        if len(ts) == 1:
            segs.append((ts[0], None, (X[i], X[j])))
        ipts = list(ed.ipts)
        if not ctx.check(len(ipts) == len(segs), 'edge %s: %d segments' % (e, len(ipts))):
            continue
        used = set()
        closed = np.zeros(3)
        inner = np.mean(want, axis=0) if len(ts) == 1 else None
        for ip in ipts:
            mid = None
            hit = None
            for q, (t, v, (a, b)) in enumerate(segs):
                if q not in used and np.abs((a+b)/2 - np.asarray(ip.xyz)).max() <= tol:
                    hit = q
                    break
            if not ctx.check(hit is not None, 'edge %s: integration point %s is not the middle of a side' % (e, ip.xyz)):
                continue
            used.add(hit)
            t, v, (a, b) = segs[hit]
            le = np.linalg.norm(b-a)
            ctx.check(abs(ip.le-le) <= tol, 'edge %s: length of a side' % (e,))
            nrm = np.array([ip.nx, ip.ny, ip.nz], float)
            ctx.check(abs(np.linalg.norm(nrm)-1) <= 1e-9, 'normal is not a unit vector')
            ctx.check(abs(nrm.dot(b-a)) <= ntol*le and abs(nrm[2]) <= 1e-12, 'normal is not perpendicular to its side')
            # outward: the triangle (sub-triangle of this edge in t) lies on the inner side
            other = X[j] if v == i else X[i]
            ref = C[t] if v is None else other
            ctx.check(nrm.dot(ref-a) < 0, 'edge %s: normal points inwards' % (e,))
            closed += ip.le*nrm
            # shape function values
            val = {}
            for nd, f in ((ip.n1, ip.f1), (ip.n2, ip.f2), (ip.n3, ip.f3)):
                val[node[nd.nid]] = val.get(node[nd.nid], 0) + f
            ctx.check(set(val) == set(g.tris[t]), 'edge %s: shape functions of the wrong nodes' % (e,))
            o = [q for q in g.tris[t] if q not in e][0]
            exp = {i: .5, j: .5, o: 0.} if v is None else {v: 2/3, (j if v == i else i): 1/6, o: 1/6}
            ctx.check(all(abs(val.get(q, 9) - exp[q]) <= 1e-12 for q in exp), 'edge %s: shape function values' % (e,))
            ctx.check(abs(sum(val.values())-1) <= 1e-12, 'shape functions do not sum to one')
            ctx.check(tria.get(ip.tria.eid) == t, 'segment attributed to the wrong triangle')
        ctx.check(len(used) == len(segs), 'edge %s: sides not covered' % (e,))
        ctx.check(np.abs(closed).max() <= ntol*ext, 'edge %s: boundary is not closed' % (e,), closed=closed)
        for t in ts:
            share[t] += g.area[t]/3
        ctx.outcome((len(ts), round(area, 9)))
    A = sum(g.area)
    ctx.check(abs(tot-A) <= atol*len(g.edges), 'domains add up to %r, the mesh to %r' % (tot, A))


def run(unit, ctx):
    if unit['kind'] in ('full', 'cover'):
        for k, m in cm.states(unit, ctx):
            if ctx.case(dict(m=m, nodal=bool(k % 2), k=k)):
                verify(ctx, m, bool(k % 2), k)
    elif unit['kind'] == 'scene':
        for k, m, nodal, pn, pe, _ in cm.scenes(unit, ctx):
            verify(ctx, m, nodal, k, (pn, pe))
    elif unit['kind'] == 'big':
        for nm, m in cm.big_meshes(unit['names']):
            for nodal in (True, False):
                if ctx.case(dict(mesh=nm, nodal=nodal)):
                    ctx.state()
                    verify(ctx, m, nodal, 1)
    elif unit['kind'] == 'orders':
        sts, _ = ms.families(unit['ps'])
        tris = [s for s in sts if len(s) == 2][0] if unit['ps'] == 'kite' else sts[-1]
        for combo in itertools.product(range(6), repeat=len(tris)-1):
            combo = (unit['i'],) + combo
            for perm in itertools.permutations(range(len(tris))):
                for lab in itertools.permutations(range(4)) if unit['ps'] == 'kite' else [(0, 1, 2, 3), (2, 3, 1, 0)]:
                    if not ctx.case(dict(combo=combo, perm=perm, lab=lab)):
                        continue
                    ctx.state()
                    tt = [[tris[q][v] for v in ms.VERTEX_ORDERS[combo[q]]] for q in perm]
                    m = ms.make(ms.mapped(ms.POINTSETS[unit['ps']], 'skew'), tt, -1.0)
                    verify(ctx, cm.relabel(m, list(lab)), True, 0)
    elif unit['kind'] == 'max':
        full = ms.maximal('lat33')
        for q in range(unit['lo'], min(unit['hi'], len(full))):
            if ctx.case(dict(q=q)):
                ctx.state()
                m = cm.relabel(ms.desc('lat33', full[q], cm.MAPNAMES[q % 9], 0.0, q), cm.rotperm(9, q))
                verify(ctx, m, True, 0)
