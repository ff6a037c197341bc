"""Reference model: the textbook definition of each quantity, written in the
most direct way (small dense B matrices, loops over edges and triangles).

Besides each matrix K the model gives the magnitude Kabs of the sums behind
every entry, from which a rounding tolerance is derived.
"""
from types import SimpleNamespace

import numpy as np

DOF = 5


# ------------------------------------------------------------- laminates

def lam(A, B, D, E, h, k13, k23):
    return SimpleNamespace(A=np.array(A, float), B=np.array(B, float), D=np.array(D, float),
                           E=np.array(E, float), h=float(h), scf_k13=float(k13), scf_k23=float(k23))


def _abd(seed_rows, s):
    """SPD 6x6 from fixed rows: generic, all 18 independent terms distinct."""
    M = np.array(seed_rows, float)
    K = M.dot(M.T) + np.eye(6)*0.3
    K = K*s
    return K[:3, :3], K[:3, 3:], K[3:, 3:]


def _symB(B):
    return (B + B.T)/2


def generic(k, scale=1.0):
    """Generic coupled laminates, k = 0, 1, 2, ...: A, B, D full, symmetric,
    positive definite as a whole, E diagonal with different terms."""
    rows = [[1.3, .2, .1, .05, -.1, .02], [.25, 1.1, -.15, .04, .06, -.03], [.1, -.12, .8, .03, .02, .07],
            [.2, .1, .05, .9, .13, -.08], [-.1, .15, .02, .2, .7, .11], [.05, -.04, .12, -.1, .08, .6]]
    M = np.array(rows)
    M = M*(1 + 0.17*k) + 0.03*k*np.roll(M, k, axis=1)
    K = M.dot(M.T)
    A, B, D = K[:3, :3], _symB(K[:3, 3:]), K[3:, 3:]
    return lam(scale*A, scale*B, scale*D, scale*np.diag([0.9+0.4*k, 0.35+0.15*k]), 0.7+0.45*k,
               0.83-0.09*k, 0.61+0.11*k)


def isotropic(E=2.0, nu=0.3, h=0.5, scale=1.0):
    Q = E/(1-nu**2)*np.array([[1, nu, 0], [nu, 1, 0], [0, 0, (1-nu)/2]])
    G = E/2/(1+nu)
    return lam(scale*Q*h, np.zeros((3, 3)), scale*Q*h**3/12, scale*np.diag([G*h, G*h]), h, 5/6., 5/6.)


def unit_term(block, i, j):
    """Laminate with a single (symmetric) term of A, B or D equal to one."""
    z = {'A': np.zeros((3, 3)), 'B': np.zeros((3, 3)), 'D': np.zeros((3, 3))}
    z[block][i, j] = z[block][j, i] = 1.0
    return lam(z['A'], z['B'], z['D'], np.zeros((2, 2)), 1.0, 1.0, 1.0)


def real_laminate(kind):
    from composites.laminate import read_stack, read_isotropic
    if kind == 'iso':
        return read_isotropic(thickness=0.02, E=70e9, nu=0.33)
    if kind == 'iso_off':
        return read_isotropic(thickness=0.02, E=70e9, nu=0.33, offset=0.007)
    prop = (129.5e9, 9.37e9, 0.38, 5.24e9, 5.24e9, 5.24e9)
    if kind == 'sym':
        return read_stack([0, 45, -45, 90, 90, -45, 45, 0], plyt=1.9e-4, laminaprop=prop)
    if kind == 'uns':
        return read_stack([0, 30, 45, 90], plyt=1.9e-4, laminaprop=prop)
    if kind == 'angle':
        return read_stack([20, 20], plyt=5e-4, laminaprop=prop)
    raise KeyError(kind)


def mix(props, weights):
    """Weighted combination of laminates, term by term."""
    out = SimpleNamespace()
    for name in ('A', 'B', 'D', 'E'):
        setattr(out, name, sum(w*np.asarray(getattr(p, name), float) for p, w in zip(props, weights)))
    for name in ('h', 'scf_k13', 'scf_k23'):
        setattr(out, name, sum(w*float(getattr(p, name)) for p, w in zip(props, weights)))
    return out


# --------------------------------------------------------------- geometry

class Geo(object):
    def __init__(self, m):
        self.xy = np.array(m['pts'], float)
        self.z = float(m.get('z', 0.0))
        self.tris = [tuple(t) for t in m['tris']]
        self.n = len(self.xy)
        self.area = []
        self.grad = []          # per triangle {node: (dN/dx, dN/dy)}
        self.cent = []
        for t in self.tris:
            a, b, c = (self.xy[i] for i in t)
            two = (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0])
            g = {}
            for k in range(3):
                p, q = self.xy[t[(k+1) % 3]], self.xy[t[(k+2) % 3]]
                g[t[k]] = np.array([p[1]-q[1], q[0]-p[0]])/two
            self.area.append(abs(two)/2)
            self.grad.append(g)
            self.cent.append((a+b+c)/3)
        self.edges = {}          # (i, j) sorted -> list of triangle numbers, in element order
        for e, t in enumerate(self.tris):
            for k in range(3):
                i, j = t[k], t[(k+1) % 3]
                self.edges.setdefault((min(i, j), max(i, j)), []).append(e)

    def domain(self, edge):
        """area, {node: smoothed gradient}"""
        ts = self.edges[edge]
        Ac = sum(self.area[t]/3 for t in ts)
        g = {}
        for t in ts:
            for n, v in self.grad[t].items():
                g[n] = g.get(n, 0) + self.area[t]/3*v
        return Ac, {n: v/Ac for n, v in g.items()}

    def gscale(self, edge):
        return max(np.abs(v).max() for t in self.edges[edge] for v in self.grad[t].values())

    def edge_prop(self, edge, props, nodal):
        ts = self.edges[edge]
        if nodal:
            # mean over the vertices of the domain of the linearly interpolated field
            w = {}
            nv = 2 + len(ts)
            for n in edge:
                w[n] = w.get(n, 0) + 1/nv
            for t in ts:
                for n in self.tris[t]:
                    w[n] = w.get(n, 0) + 1/3/nv
            return mix([props[n] for n in w], list(w.values()))
        At = sum(self.area[t] for t in ts)
        return mix([props[t] for t in ts], [self.area[t]/At for t in ts])

    def tri_prop(self, t, props, nodal):
        if nodal:
            return mix([props[n] for n in self.tris[t]], [1/3]*3)
        return props[t]

    def length(self, i, j):
        return float(np.hypot(*(self.xy[i]-self.xy[j])))

    def ccw(self, t):
        a, b, c = self.tris[t]
        if self.signed(a, b, c) < 0:
            a, b = b, a
        return a, b, c

    def signed(self, a, b, c):
        p, q, r = self.xy[a], self.xy[b], self.xy[c]
        return (q[0]-p[0])*(r[1]-p[1]) - (q[1]-p[1])*(r[0]-p[0])


def _scatter(K, Kabs, nodes, Bm, C, w):
    """K += w * Bm^T C Bm, Bm having 5 columns per node of nodes."""
    dofs = np.concatenate([np.arange(DOF) + DOF*n for n in nodes])
    K[np.ix_(dofs, dofs)] += w*Bm.T.dot(C).dot(Bm)
    Ba = np.abs(Bm)
    Kabs[np.ix_(dofs, dofs)] += abs(w)*Ba.T.dot(np.abs(C)).dot(Ba)


# ------------------------------------------------------ membrane + bending

def k0(g, props, nodal):
    n = DOF*g.n
    K, Kabs = np.zeros((n, n)), np.zeros((n, n))
    for e in g.edges:
        Ac, gr = g.domain(e)
        p = g.edge_prop(e, props, nodal)
        nodes = sorted(gr)
        Bm = np.zeros((6, DOF*len(nodes)))
        for q, nd in enumerate(nodes):
            gx, gy = gr[nd]
            Bm[0, DOF*q+0] = gx
            Bm[1, DOF*q+1] = gy
            Bm[2, DOF*q+0] = gy
            Bm[2, DOF*q+1] = gx
            Bm[3, DOF*q+3] = gx
            Bm[4, DOF*q+4] = gy
            Bm[5, DOF*q+3] = gy
            Bm[5, DOF*q+4] = gx
        C = np.block([[np.asarray(p.A), np.asarray(p.B)], [np.asarray(p.B), np.asarray(p.D)]])
        _scatter(K, Kabs, nodes, Bm, C, Ac)
        # rounding of nearly cancelling gradients is relative to the gradient size
        s = g.gscale(e)
        Bs = (np.abs(Bm) > -1) * 0.0
        for q, nd in enumerate(nodes):
            for r, c in ((0, 0), (1, 1), (2, 0), (2, 1), (3, 3), (4, 4), (5, 3), (5, 4)):
                Bs[r, DOF*q+c] = s
        dofs = np.concatenate([np.arange(DOF) + DOF*nd for nd in nodes])
        Kabs[np.ix_(dofs, dofs)] += Ac*Bs.T.dot(np.abs(C)).dot(Bs)
    return K, Kabs


def kG(g, props, nodal, d):
    n = DOF*g.n
    K, Kabs = np.zeros((n, n)), np.zeros((n, n))
    d = np.asarray(d, float)
    for e in g.edges:
        Ac, gr = g.domain(e)
        p = g.edge_prop(e, props, nodal)
        nodes = sorted(gr)
        em, eb = np.zeros(3), np.zeros(3)
        ema, eba = np.zeros(3), np.zeros(3)
        s = g.gscale(e)
        for nd in nodes:
            gx, gy = gr[nd]
            u, v, w, px, py = d[DOF*nd:DOF*nd+5]
            em += [gx*u, gy*v, gy*u + gx*v]
            eb += [gx*px, gy*py, gy*px + gx*py]
            ema += [s*abs(u), s*abs(v), s*abs(u) + s*abs(v)]
            eba += [s*abs(px), s*abs(py), s*abs(px) + s*abs(py)]
        N = np.asarray(p.A).dot(em) + np.asarray(p.B).dot(eb)
        Na = np.abs(p.A).dot(ema) + np.abs(p.B).dot(eba)
        S = np.array([[N[0], N[2]], [N[2], N[1]]])
        for i in nodes:
            for j in nodes:
                K[DOF*i+2, DOF*j+2] += Ac*gr[i].dot(S).dot(gr[j])
                Kabs[DOF*i+2, DOF*j+2] += Ac*4*s*s*Na.sum()
    return K, Kabs


# --------------------------------------------------------- transverse shear

def dsg(p1, p2, p3):
    """Discrete-shear-gap strains of the triangle 1-2-3 (CCW) with vertex 1 as
    reference: 2 x 9 matrix on (w, phix, phiy) of each vertex."""
    a, b = p2[0]-p1[0], p2[1]-p1[1]
    c, d = p3[0]-p1[0], p3[1]-p1[1]
    return dsg_abcd(a, b, c, d, (a*d - b*c)/2)


def dsg_abcd(a, b, c, d, area):
    Bs = np.zeros((2, 9))
    Bs[:, 0] = [(b-d)/(2*area), (c-a)/(2*area)]
    Bs[0, 1] = 0.5
    Bs[1, 2] = 0.5
    g2 = np.array([d, -c])/(2*area)      # gap of vertex 2: w2 + (a phix2 + b phiy2)/2
    Bs[:, 3], Bs[:, 4], Bs[:, 5] = g2, g2*a/2, g2*b/2
    g3 = np.array([-b, a])/(2*area)      # gap of vertex 3
    Bs[:, 6], Bs[:, 7], Bs[:, 8] = g3, g3*c/2, g3*d/2
    return Bs


def _put(Bm, cols, Bs, vertices, w):
    """Distribute a 2x9 operator; a vertex is a dict {node: weight}."""
    for v, comb in enumerate(vertices):
        for nd, cw in comb.items():
            q = cols[nd]
            Bm[:, 3*q:3*q+3] += w*cw*Bs[:, 3*v:3*v+3]


def _scatter3(K, Kabs, nodes, Bm, Ba, C, w):
    dofs = np.concatenate([DOF*n + np.array([2, 3, 4]) for n in nodes])
    K[np.ix_(dofs, dofs)] += w*Bm.T.dot(C).dot(Bm)
    Kabs[np.ix_(dofs, dofs)] += w*Ba.T.dot(np.abs(C)).dot(Ba)


def k0s(g, props, nodal, method='cell-based', alpha=0.08, maxl_from_area=False, defect_B=False):
    """defect_B: known finding KF-B (interior edges of the edge-based method
    take the z coordinate of the first edge node for its y coordinate)."""
    n = DOF*g.n
    K, Kabs = np.zeros((n, n)), np.zeros((n, n))

    def add(nodes, parts, p, Ac, l):
        cols = {nd: q for q, nd in enumerate(nodes)}
        Bm = np.zeros((2, 3*len(nodes)))
        Ba = np.zeros((2, 3*len(nodes)))
        for Bs, verts, w in parts:
            _put(Bm, cols, Bs, verts, w)
            _put(Ba, cols, np.abs(Bs), verts, w)
        f = 1/(1 + alpha*l**2/p.h**2)
        C = f*np.array([[p.scf_k13*p.E[0, 0], 0], [0, p.scf_k23*p.E[1, 1]]])
        if method == 'edge-based' and len(parts) == 2:
            C[0, 1] = C[1, 0] = f*min(p.scf_k13, p.scf_k23)*p.E[0, 1]
        _scatter3(K, Kabs, nodes, Bm, Ba, C, Ac)

    if method in ('cell-based', 'cell-based-no-smoothing'):
        for t in range(len(g.tris)):
            a, b, c = g.ccw(t)
            A = g.area[t]
            p = g.tri_prop(t, props, nodal)
            l = A**0.5 if maxl_from_area else max(g.length(a, b), g.length(b, c), g.length(c, a))
            if method == 'cell-based':
                mid = {a: 1/3, b: 1/3, c: 1/3}
                parts = []
                for i, j in ((a, b), (b, c), (c, a)):
                    Bs = dsg(g.cent[t], g.xy[i], g.xy[j])
                    parts.append((Bs, [mid, {i: 1}, {j: 1}], 1/3))
            else:
                parts = [(dsg(g.xy[a], g.xy[b], g.xy[c]), [{a: 1}, {b: 1}, {c: 1}], 1.0)]
            add((a, b, c), parts, p, A, l)
    elif method == 'edge-based':
        for (i, j), ts in g.edges.items():
            t1 = ts[0]
            o1 = [v for v in g.tris[t1] if v not in (i, j)][0]
            if g.signed(i, j, o1) < 0:
                i, j = j, i
            Ac = sum(g.area[t] for t in ts)/3
            p = g.edge_prop((min(i, j), max(i, j)), props, nodal)
            segs = [np.hypot(*(g.cent[t]-g.xy[v])) for t in ts for v in (i, j)] + [g.length(i, j)]
            l = Ac**0.5 if maxl_from_area else max(segs)
            mid1 = {v: 1/3 for v in g.tris[t1]}
            if len(ts) == 1:
                parts = [(dsg(g.cent[t1], g.xy[i], g.xy[j]), [mid1, {i: 1}, {j: 1}], 1.0)]
                nodes = (i, j, o1)
            else:
                t2 = ts[1]
                o2 = [v for v in g.tris[t2] if v not in (i, j)][0]
                mid2 = {v: 1/3 for v in g.tris[t2]}
                if defect_B:
                    m1, n1, n2 = g.cent[t1], g.xy[i], g.xy[j]
                    B1 = dsg_abcd(n1[0]-m1[0], g.z-m1[1], n2[0]-m1[0], n2[1]-m1[1], g.area[t1]/3)
                else:
                    B1 = dsg(g.cent[t1], g.xy[i], g.xy[j])
                B2 = dsg(g.xy[i], g.cent[t2], g.xy[j])
                parts = [(B1, [mid1, {i: 1}, {j: 1}], g.area[t1]/3/Ac),
                         (B2, [{i: 1}, mid2, {j: 1}], g.area[t2]/3/Ac)]
                nodes = (i, j, o1, o2)
            add(nodes, parts, p, Ac, l)
    else:
        raise ValueError(method)
    return K, Kabs


# --------------------------------------------------------------- comparing

RTOL = 2e-10


def close(K, R, Rabs, rtol=RTOL):
    """Entry-wise |K - R| <= rtol * magnitude of the sums behind the entry,
    with entries of magnitude zero required to be exactly zero up to a tiny
    fraction of the smallest magnitude around."""
    K = np.asarray(K)
    if K.shape != R.shape or not np.all(np.isfinite(K)):
        return False
    return bool(np.all(np.abs(K - R) <= rtol*Rabs))


def worst(K, R, Rabs):
    K = np.asarray(K)
    if K.shape != R.shape:
        return 'shape %s instead of %s' % (K.shape, R.shape)
    D = np.abs(K - R)
    x = np.where(Rabs > 0, D/np.where(Rabs > 0, Rabs, 1), np.where(D > 0, np.inf, 0))
    x = np.where(np.isfinite(K), x, np.inf)
    i, j = np.unravel_index(np.argmax(x), x.shape)
    return 'node %d dof %d / node %d dof %d: got %r, expected %r (relative %g)' % (
        i // 5, i % 5, j // 5, j % 5, float(K[i, j]), float(R[i, j]), float(x[i, j]))


def perm(mesh, n=None):
    """row permutation: model node i -> row block of mesh node id i+1"""
    ids = sorted(mesh.nodes)
    return np.array([mesh.nodes[i].index for i in ids])


def from_impl(K, index):
    """Matrix of the implementation reordered to model node numbers."""
    dofs = np.concatenate([DOF*k + np.arange(DOF) for k in index])
    return np.asarray(K)[np.ix_(dofs, dofs)]


def to_impl_vec(d, index):
    out = np.zeros(len(d))
    for i, k in enumerate(index):
        out[DOF*k:DOF*k+5] = d[DOF*i:DOF*i+5]
    return out
