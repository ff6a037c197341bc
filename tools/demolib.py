"""Shared by the demonstrations of the planted changes (copied beside each)."""
import os
import sys
from types import SimpleNamespace as NS

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import numpy as np
from meshless.espim.read_mesh import read_mesh, read_delaunay
from meshless.espim.plate2d_calc_k0 import calc_k0
from meshless.espim.plate2d_calc_kG import calc_kG
from meshless.espim.plate2d_add_k0s import add_k0s

METHODS = ['cell-based', 'cell-based-no-smoothing', 'edge-based']
# a square of two triangles with a third one attached
PTS = [(0., 0.), (2., 0.3), (1.9, 2.1), (-0.2, 1.8), (3.5, 1.4)]
TRIS = [(0, 1, 2), (0, 2, 3), (1, 4, 2)]


def check(cond, text):
    if not cond:
        print('FAIL', text)
        sys.exit(1)


def close(a, b, rtol=1e-8, what='values differ'):
    a, b = np.asarray(a, float), np.asarray(b, float)
    scale = max(np.abs(a).max(), np.abs(b).max(), 1e-300)
    check(a.shape == b.shape and np.abs(a - b).max() <= rtol*scale,
          '%s: %g of %g' % (what, np.abs(a - b).max() if a.shape == b.shape else -1, scale))


def spd(n, k):
    rng = np.random.RandomState(1000 + k)
    m = rng.rand(n, n) - 0.5
    return m @ m.T + 0.5*np.eye(n)


def lam(k, shear=True):
    """a laminate with every coupling, number k"""
    abd = spd(6, k)*(1 + 0.2*k)
    e = np.diag([1. + .1*k, 2. - .07*k])
    return NS(A=abd[:3, :3].copy(), B=((abd[:3, 3:] + abd[:3, 3:].T)/2).copy(), D=abd[3:, 3:].copy(),
              E=e, h=0.1 + 0.01*k, scf_k13=0.8 + 0.02*k, scf_k23=0.9 - 0.03*k)


def mesh_of(pts=PTS, tris=TRIS):
    return read_delaunay(np.array(pts, float), NS(simplices=np.array(tris)))


def set_props(mesh, node=lambda i: lam(i), elem=lambda i: lam(20 + i)):
    for i, n in enumerate(mesh.nodes.values()):
        n.prop = node(i)
    for i, t in enumerate(mesh.elements.values()):
        t.prop = elem(i)
    return mesh


def full(pts=PTS, tris=TRIS, node=lambda i: lam(i), elem=lambda i: lam(20 + i)):
    return set_props(mesh_of(pts, tris), node, elem)


def grads(p, t):
    (x1, y1), (x2, y2), (x3, y3) = [p[i][:2] for i in t]
    a2 = (x2-x1)*(y3-y1) - (x3-x1)*(y2-y1)
    g = np.array([[y2-y3, x3-x2], [y3-y1, x1-x3], [y1-y2, x2-x1]])/a2
    return abs(a2)/2, g


def domains(pts, tris):
    """edge -> (area, {node: gradient}, [(tri, area part)])"""
    out = {}
    for ti, t in enumerate(tris):
        a, g = grads(pts, t)
        for i, j in ((0, 1), (1, 2), (2, 0)):
            d = out.setdefault(tuple(sorted((t[i], t[j]))), [0., {}, []])
            d[0] += a/3
            d[2].append((ti, a/3))
            for k in range(3):
                d[1][t[k]] = d[1].get(t[k], 0) + a/3*g[k]
    for d in out.values():
        d[1] = {k: v/d[0] for k, v in d[1].items()}
    return out


def dom_prop(name, e, d, tris, nprop, eprop, from_node):
    if from_node:
        w = {}
        nv = 2 + len(d[2])
        for v in e:
            w[v] = w.get(v, 0) + 1/nv
        for ti, _ in d[2]:
            for v in tris[ti]:
                w[v] = w.get(v, 0) + 1/nv/3
        return sum(x*getattr(nprop(v), name) for v, x in w.items())
    return sum(a*getattr(eprop(ti), name) for ti, a in d[2])/d[0]


def ref_k0(pts, tris, index, from_node, nprop=lam, eprop=lambda i: lam(20 + i)):
    k = np.zeros((5*len(pts),)*2)
    for e, d in domains(pts, tris).items():
        A, B, D = (dom_prop(n, e, d, tris, nprop, eprop, from_node) for n in 'ABD')
        C = np.block([[A, B], [B, D]])
        Bm = np.zeros((6, len(k)))
        for v, (gx, gy) in d[1].items():
            for o, c in ((0, 0), (3, 3)):
                i = 5*index[v] + c
                Bm[o, i] = gx
                Bm[o+1, i+1] = gy
                Bm[o+2, i], Bm[o+2, i+1] = gy, gx
        k += d[0]*Bm.T @ C @ Bm
    return k


def ref_kG(u, pts, tris, index, from_node, nprop=lam, eprop=lambda i: lam(20 + i)):
    k = np.zeros((5*len(pts),)*2)
    for e, d in domains(pts, tris).items():
        A, B = (dom_prop(n, e, d, tris, nprop, eprop, from_node) for n in 'AB')
        em, eb = np.zeros(3), np.zeros(3)
        g = np.zeros((2, len(k)))
        for v, (gx, gy) in d[1].items():
            q = u[5*index[v]:5*index[v]+5]
            em += [gx*q[0], gy*q[1], gy*q[0] + gx*q[1]]
            eb += [gx*q[3], gy*q[4], gy*q[3] + gx*q[4]]
            g[:, 5*index[v]+2] = gx, gy
        nx, ny, nxy = A @ em + B @ eb
        k += d[0]*g.T @ np.array([[nx, nxy], [nxy, ny]]) @ g
    return k


def index_of(mesh):
    return [n.index for n in mesh.nodes.values()]


def disp(n, seed=0):
    return np.random.RandomState(seed).rand(5*n) - 0.5


def deck(text):
    import tempfile
    d = tempfile.mkdtemp(prefix='demo_')
    f = os.path.join(d, 'm.dat')
    with open(f, 'w') as fh:
        fh.write('SOL 101\nCEND\nBEGIN BULK\n' + text + 'MAT1,1,7.1E10,,0.33\nPSHELL,1,1,.01\nENDDATA\n')
    try:
        return read_mesh(f)
    finally:
        os.remove(f)
        os.rmdir(d)
