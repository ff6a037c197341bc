"""Pieces shared by the mesh based checks."""
import itertools

import numpy as np

from . import meshspace as ms
from . import refmodel as rf
from .impl import I

SMALL = ['tri', 'quad', 'kite', 'dart', 'quad_c', 'penta', 'graded']
MAPNAMES = ['id', 'skew', 'neg', 'mirror', 'small', 'big', 'thin', 'wobble', 'far']
ZS = [0.0, 1.7, -2.5]


def chunks(n, size):
    return [(a, min(n, a+size)) for a in range(0, n, size)]


def relabel(m, perm):
    """Renumber the points: old point i becomes point perm[i]."""
    pts = [None]*len(perm)
    for i, p in enumerate(perm):
        pts[p] = m['pts'][i]
    return dict(m, pts=pts, tris=[[perm[v] for v in t] for t in m['tris']])


def rotperm(n, k):
    """A few fixed permutations of n labels."""
    ident = list(range(n))
    if k % 4 == 0:
        return ident
    if k % 4 == 1:
        return ident[::-1]
    if k % 4 == 2:
        return [(i*2) % n if n % 2 else (i + n//2) % n for i in ident]
    out = ident[1:] + ident[:1]
    out[0], out[-1] = out[-1], out[0]
    return out


def full_units(pointsets, maps, size=12, maxtri=99, **kw):
    """Every state of every point set under every map."""
    out = []
    for ps in pointsets:
        n = len(ms.families(ps, maxtri)[0])
        for mp in maps:
            for lo, hi in chunks(n, size):
                out.append(dict(kind='full', ps=ps, mp=mp, lo=lo, hi=hi, maxtri=maxtri, **kw))
    return out


def cover_units(ps, size=30, maxtri=99, step=1, **kw):
    """Every state of one point set once; map, vertex/element order, numbering
    and z follow from the position of the state in the enumeration."""
    n = len(ms.families(ps, maxtri)[0])
    return [dict(kind='cover', ps=ps, lo=lo, hi=hi, maxtri=maxtri, **kw)
            for lo, hi in chunks(n, size)]


def states(unit, ctx):
    """Mesh descriptions of a unit, with an index used to rotate secondary
    choices.  Counts model states and transitions."""
    ps = unit['ps']
    sts, ntr = ms.families(ps, unit['maxtri'])
    pts = ms.POINTSETS[ps]
    if unit['lo'] == 0:
        ctx.trans(ntr)
    for k in range(unit['lo'], unit['hi']):
        tris = sts[k]
        ctx.state()
        if unit['kind'] == 'full':
            mp = unit['mp']
            variant = unit.get('variant', (k*7 + 3*MAPNAMES.index(mp)) % 12)
            lab = unit.get('lab', k + MAPNAMES.index(mp))
        else:
            mp = MAPNAMES[(k + k//9) % len(MAPNAMES)]
            variant = (k*5 + k//12) % 12
            lab = k//2
        z = ZS[k % 3]
        m = ms.desc(ps, tris, mp, z, variant)
        yield k, relabel(m, rotperm(len(pts), lab))


BIG = {
    'grid66': lambda: ms.grid(6, 6, lambda i, j: (i+j) % 2, 0.31, 0.52, -1.1, 0.4),
    'grid91': lambda: ms.grid(9, 1, lambda i, j: i % 2, 1.0, 2.0, 3.0, -4.0, 0.5),
    'grid44r': lambda: dict(ms.grid(4, 4, lambda i, j: 1, 100., 70., -150., -300.)),
    'fan': lambda: fan(11),
    'grid77s': lambda: ms.grid(7, 7, lambda i, j: (i*j) % 3 == 0, 0.011, 0.017, 0., 0.),
    'ring': lambda: ring(7),
    # more nodes than an 8-bit number can count
    'grid1615': lambda: ms.grid(16, 15, lambda i, j: (i + j*j) % 2, 0.37, 0.41, -2.0, 1.0),
    'strip': lambda: ms.grid(51, 1, lambda i, j: i % 3 == 0, 0.2, 0.7, -4.0, 1.0),
    # two parts that touch geometrically but have nodes of their own, and the same place for an unused node
    'crack': lambda: ms.make([[0, 0], [2, .2], [2.1, 1.9], [-.1, 2.2], [2.1, 1.9], [0, 0], [4, 1], [2, .2]],
                             [[0, 1, 2], [5, 4, 3], [1, 6, 2]], 0.4),
}


def fan(n):
    import math
    pts = [[0.2, -0.3]] + [[2*math.cos(0.5+6.2831853/n*i)+0.1*i, 1.5*math.sin(0.5+6.2831853/n*i)] for i in range(n)]
    return ms.make(pts, [[0, 1+i, 1+(i+1) % n] for i in range(n)], 0.25)


def ring(n):
    """Annulus: a mesh with a hole."""
    import math
    pts = []
    for i in range(n):
        a = 6.283185307/n*i
        pts.append([math.cos(a), math.sin(a)])
    for i in range(n):
        a = 6.283185307/n*(i+0.4)
        pts.append([2.5*math.cos(a)-0.3, 2.2*math.sin(a)+0.2])
    tris = []
    for i in range(n):
        j = (i+1) % n
        tris += [[i, n+i, j], [j, n+i, n+j]]
    return ms.make(pts, tris, 0.0)


def big_meshes(names=None):
    for k, nm in enumerate(names or sorted(BIG)):
        m = BIG[nm]()
        m = dict(m, tris=ms.reorder(m['tris'], k+5))
        yield nm, relabel(m, rotperm(len(m['pts']), k+1))


# ------------------------------------------------------- laminate fields

_gen = {}


def gen(k):
    if k not in _gen:
        _gen[k] = rf.generic(k)
    return _gen[k]


def mesh_ids(mesh):
    """place in the description -> id, of nodes and of elements"""
    if hasattr(mesh, 'mc_nid'):
        return mesh.mc_nid.__getitem__, mesh.mc_eid.__getitem__
    return (lambda i: i + 1,)*2


def assign(mesh, props_n, props_e):
    """props per model node / per model triangle (None: leave unset)."""
    nid, eid = mesh_ids(mesh)
    if props_n is not None:
        for i, p in enumerate(props_n):
            mesh.nodes[nid(i)].prop = p
    if props_e is not None:
        for i, p in enumerate(props_e):
            mesh.elements[eid(i)].prop = p


def hetero(n, k, nkinds=3):
    """A heterogeneous assignment of generic laminates to n places."""
    return [gen((i*(k % 2 + 1) + k + i//2) % nkinds) for i in range(n)]


LAMDATA = ['A', 'B', 'D', 'E', 'h', 'scf_k13', 'scf_k23']


def alike(k, code):
    """Laminate k sharing the data named by the bits of code with laminate 6."""
    p, q = rf.generic(k), rf.generic(6)
    for b, name in enumerate(LAMDATA):
        if code >> b & 1:
            v = getattr(q, name)
            setattr(p, name, np.array(v) if np.ndim(v) else v)
    return p


def _z(p, names):
    for s in names:
        setattr(p, s, 0*getattr(p, s))
    return p


def _set(p, **kw):
    for a, v in kw.items():
        setattr(p, a, v)
    return p


def _iso(p):
    for s, nu in (('A', .3), ('D', .2)):
        c = getattr(p, s)[0, 0]
        setattr(p, s, c*np.array([[1, nu, 0], [nu, 1, 0], [0, 0, (1-nu)/2]]))
    return _set(_z(p, 'B'), E=p.E[0, 0]*np.eye(2))


SPECIAL = {
    'noA': lambda p: _z(p, 'AB'), 'noB': lambda p: _z(p, 'B'), 'noD': lambda p: _z(p, 'BD'), 'onlyB': lambda p: _z(p, 'AD'),
    'membrane': lambda p: _z(p, 'BDE'), 'plate': lambda p: _z(p, 'ABE'), 'onlyE': lambda p: _z(p, 'ABD'), 'noE': lambda p: _z(p, 'E'),
    'k_equal': lambda p: _set(p, scf_k13=5/6., scf_k23=5/6.), 'k_one': lambda p: _set(p, scf_k13=1, scf_k23=1),
    'k13_one': lambda p: _set(p, scf_k13=1.), 'E_equal': lambda p: _set(p, E=p.E[0, 0]*np.eye(2)),
    'E11': lambda p: _set(p, E=np.diag([p.E[0, 0], 0.])), 'E22': lambda p: _set(p, E=np.diag([0., p.E[1, 1]])),
    'iso': _iso, 'h_one': lambda p: _set(p, h=1), 'D_is_A': lambda p: _set(p, D=np.array(p.A)),
    'same_object': lambda p: _set(p, B=p.A, D=p.A), 'ortho': lambda p: _set(p, **{s: getattr(p, s)*np.array(
        [[1, 1, 0], [1, 1, 0], [0, 0, 1]]) for s in 'ABD'}),
    'ints': lambda p: _set(p, **{s: np.round(getattr(p, s)*9).astype(int) for s in 'ABD'}),
    'negB': lambda p: _set(p, B=-p.B), 'big': lambda p: _set(p, **{s: getattr(p, s)*1e9 for s in 'ABDE'}),
    'tiny': lambda p: _set(p, **{s: getattr(p, s)*1e-9 for s in 'ABDE'}),
    'fortran': lambda p: _set(p, **{s: np.asfortranarray(getattr(p, s)) for s in 'ABDE'}),
    'abd': lambda p: (lambda M: _set(p, A=M[:3, :3], B=M[:3, 3:], D=M[3:, 3:]))(np.block([[p.A, p.B], [p.B, p.D]])),
}


for _b in 'ABD':
    for _f in (1e-6, 1e6):
        SPECIAL['%s*%g' % (_b, _f)] = lambda p, b=_b, f=_f: _set(p, **{b: getattr(p, b)*f})
for _f in (1e-2, 1e-4, 1e-7, 1e-12):
    SPECIAL['E11*%g' % _f] = lambda p, f=_f: _set(p, E=p.E*np.array([[f, 0], [0, 1]]))
    SPECIAL['E22*%g' % _f] = lambda p, f=_f: _set(p, E=p.E*np.array([[1, 0], [0, f]]))
    SPECIAL['k13~k23 %g' % _f] = lambda p, f=_f: _set(p, scf_k23=p.scf_k13*(1 + f))
    SPECIAL['E11~E22 %g' % _f] = lambda p, f=_f: _set(p, E=p.E[0, 0]*np.diag([1, 1 + f]))
    SPECIAL['h*%g' % _f] = lambda p, f=_f: _set(p, h=p.h*f)
    SPECIAL['h*%g' % (1/_f)] = lambda p, f=_f: _set(p, h=p.h/f)
SIXS = [(0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)]


# two terms of a block equal or opposite
def _pair(p, b, i, j, sign):
    M = np.array(getattr(p, b))
    v = M[SIXS[i]]
    M[SIXS[j]] = M[SIXS[j][::-1]] = sign*v
    return _set(p, **{b: M})


PAIRS = {}
for _b in 'ABD':
    for _i in range(6):
        for _j in range(_i + 1, 6):
            for _s in (1, -1):
                PAIRS['%s%d%d%+d' % (_b, _i, _j, _s)] = lambda p, a=(_b, _i, _j, _s): _pair(p, *a)
PAIRS['E01'] = lambda p: _set(p, E=np.array([[p.E[0, 0], -p.E[0, 0]], [-p.E[0, 0], p.E[1, 1]]])*np.eye(2))
for _b in 'ABD':
    PAIRS[_b + ' negative 16'] = lambda p, b=_b: _set(p, **{b: getattr(p, b)*np.array([[1, 1, -1], [1, 1, 1], [-1, 1, 1]])})
    PAIRS[_b + ' negative 26'] = lambda p, b=_b: _set(p, **{b: getattr(p, b)*np.array([[1, 1, 1], [1, 1, -1], [1, -1, 1]])})
    PAIRS[_b + ' negative 12'] = lambda p, b=_b: _set(p, **{b: getattr(p, b)*np.array([[1, -1, 1], [-1, 1, 1], [1, 1, 1]])})
    PAIRS[_b + ' negative'] = lambda p, b=_b: _set(p, **{b: -getattr(p, b)})


def special(k, name):
    if name in PAIRS:
        return PAIRS[name](rf.generic(k))
    return SPECIAL[name](rf.generic(k))


def masked(k, block, code):
    """Laminate k with only the terms of one block named by the bits of code."""
    p = rf.generic(k)
    M = np.zeros((3, 3))
    for b, (i, j) in enumerate(SIXS):
        if code >> b & 1:
            M[i, j] = M[j, i] = 1
    setattr(p, block, getattr(p, block)*M)
    return p


NEAR = [0b1111111] + [1 << b for b in range(7)] + [0b1111111 ^ 1 << b for b in range(7)]


def nearly(k, code, eps):
    """Laminate k whose data named by code differ by eps only from one laminate to the next."""
    p, q = rf.generic(k), rf.generic(6)
    for b, name in enumerate(LAMDATA):
        if code >> b & 1:
            setattr(p, name, getattr(q, name)*(1 + eps*k))
    return p


def lam_meshes():
    """(name, mesh) on which laminates that agree in some of their data meet: two and three triangles, two parts"""
    for ps, mp in (('kite', 'skew'), ('penta', 'neg')):
        tris = ms.maximal(ps)[0]
        m = ms.desc(ps, tris, mp, 0.7, 3)
        yield ps, relabel(m, rotperm(len(m['pts']), 1))


LAMTEXT = ('laminates that agree, exactly or nearly, in every set of data, all 64 sets of terms of A, B and D, %d kinds of '
           'special values, every two terms of a block equal or opposite' % len(SPECIAL))
LAMKINDS = ('lams', 'special', 'masked', 'pairs', 'near')


def lam_units():
    sp = sorted(SPECIAL)
    return [dict(kind='lams', mesh=i, lo=lo, hi=hi) for i in range(2) for lo, hi in chunks(128, 16)] + \
           [dict(kind='special', mesh=i, names=sp[q::10]) for i in range(2) for q in range(10)] + \
           [dict(kind='masked', mesh=0, block=c, lo=lo, hi=hi) for c in 'ABD' for lo, hi in chunks(64, 32)] + \
           [dict(kind='pairs', mesh=1, names=sorted(PAIRS)[q::4]) for q in range(4)] + \
           [dict(kind='near', mesh=1, eps=e) for e in (1e-2, 1e-4, 1e-7)]


def lam_fields(unit):
    """(code, laminate of place i)"""
    if unit['kind'] == 'lams':
        for code in range(unit['lo'], unit['hi']):
            yield code, lambda i, code=code: alike(i % 4, code)
    elif unit['kind'] == 'special':
        # everywhere, on every other place, on all places but one
        for nm in unit['names']:
            for q in range(4 if unit['mesh'] == 0 else 2):
                yield '%s/%d' % (nm, q), lambda i, nm=nm, q=q: special(i % 4, nm) if q == 0 or (q == 3 and i != 1) \
                    or (i % 2 == q - 1) else rf.generic(i % 4)
    elif unit['kind'] == 'pairs':
        for nm in unit['names']:
            yield nm, lambda i, nm=nm: special(i % 4, nm)
    elif unit['kind'] == 'masked':
        for code in range(unit['lo'], unit['hi']):
            yield code, lambda i, code=code: masked(i % 4, unit['block'], code)
    else:
        for code in NEAR:
            yield code, lambda i, code=code: nearly(i % 4, code, unit['eps'])


def lam_cases(unit, ctx):
    """(mesh, nodal, props of nodes, props of elements): every set of data in which the laminates agree, exactly or nearly /
    every special laminate everywhere and next to a generic one / every set of terms of A, B and D"""
    for m, nodal, pn, pe, tag in lam_list(unit):
        if ctx.case(dict(unit=unit, **tag)):
            ctx.state()
            yield m, nodal, pn, pe


def lam_list(unit):
    m = list(lam_meshes())[unit['mesh']][1]
    n, T = len(m['pts']), len(m['tris'])
    for code, f in lam_fields(unit):
        for nodal in (True, False):
            yield m, nodal, [f(i) for i in range(n)], [f(i) for i in range(T)], dict(code=code, nodal=nodal)


# ---------------------------------------------------------------- scenes
# Meshes unlike those of the enumeration, each with a laminate object of its own on every place.

IDS = ['gap', 'desc', 'big', 'kilo', 'mix', 'huge', 'apart']
XYZ = ['int64', '>f8', 'strided']
SCENETEXT = ('scenes: 7 kinds of ids (gaps, descending, very large, nodes and elements apart) on maximal triangulations of 5 point sets, '
             'positions as integers, big-endian and strided arrays, fans of up to 25 triangles, needles of 10^4, neighbours of areas 10^5 apart, '
             'sizes of 10^-7 and 10^7, heights of 10^4, three parts, equilateral triangles around the origin; laminates of very '
             'different stiffness, read-only data, whole numbers; the flag in every form of a truth value')


def _shapes():
    out = {'fan13': fan(13), 'fan25': fan(25)}
    out['needle'] = ms.make([[0, 0], [1e4, 0], [3, 2], [5000, -1]], [[2, 0, 1], [0, 1, 3]], 0)
    out['uneven'] = ms.make([[0, 0], [1, 0], [.4, .7], [.5, -1e5], [9, 5]], [[0, 1, 2], [1, 0, 3], [2, 1, 4]], -1)
    out['uneven2'] = ms.make([[.5, 2e4], [0, 0], [1, 0], [.4, -.7]], [[1, 0, 2], [1, 2, 3]], 0)
    t = ms.maximal('penta')[0]
    out['tiny'] = ms.make([[1e-7*v for v in p] for p in ms.mapped(ms.POINTSETS['penta'], 'skew')], t, 0)
    out['large'] = ms.make([[1e7*v for v in p] for p in ms.mapped(ms.POINTSETS['penta'], 'neg')], t, 0)
    out['deep'] = ms.desc('penta', t, 'skew', -1e4, 3)
    out['high'] = ms.desc('penta', t, 'mirror', 3e3, 4)
    out['parts'] = ms.make([[0, 0], [1, .2], [.3, 1], [5, 5], [6, 5.5], [5.5, 7], [-3, 1], [-4, 2], [-3.5, 3], [-2, 2.5], [8, 8]],
                           [[0, 1, 2], [5, 4, 3], [7, 6, 8], [6, 9, 8]], .5)
    r = 3**.5/2
    out['equal'] = ms.make([[1, 0], [-.5, r], [-.5, -r], [-2, 0], [1, 2*r]], [[0, 1, 2], [2, 1, 3], [0, 4, 1]], 0)
    return out


def scene_descs():
    k = 0
    for ps in ('tri', 'quad_c', 'kite', 'dart', 'penta'):
        tris = ms.maximal(ps)
        for how in IDS:
            k += 1
            m = ms.desc(ps, tris[k % len(tris)], ('skew', 'neg', 'wobble', 'id')[k % 4], ZS[k % 3], (5*k) % 12)
            yield '%s/%s' % (ps, how), dict(relabel(m, rotperm(len(m['pts']), k)), ids=how)
        for t in XYZ:
            k += 1
            m = ms.desc(ps, tris[k % len(tris)], 'id' if t == 'int64' else 'skew', 0. if t == 'int64' else .25, (5*k) % 12)
            if t == 'int64':
                # whole numbers
                m = dict(m, pts=[[round(10*v) for v in p] for p in m['pts']])
            yield '%s/%s' % (ps, t), dict(relabel(m, rotperm(len(m['pts']), k)), xyz=t)
    for q, (nm, m) in enumerate(sorted(_shapes().items())):
        yield nm, m
        yield nm + '/ids', dict(m, ids=IDS[q % len(IDS)])


def scene_lam(i, k):
    """laminate of place i: an object of its own; scales and number types vary with the scene"""
    import copy
    if k % 7 == 6:
        # whole numbers
        g = rf.lam(np.diag([4 + i % 3, 3, 2]), np.zeros((3, 3)), np.diag([5, 2 + i % 2, 1]), np.diag([2 + i % 4, 1]), 1 + i % 3, 1, 1)
        for nm in 'ABDE':
            setattr(g, nm, np.array(getattr(g, nm)).astype(int))
        return g
    p = copy.copy(gen((2*i + k) % 9))
    s = [1., 1., 1e14, 1., 1e-14, 1.][k % 6]
    if k % 6 == 3:
        s = 10.**(4*(i % 3))         # soft next to stiff
    for nm in 'ABDE':
        a = np.array(getattr(p, nm))*s
        a.setflags(write=k % 2)
        setattr(p, nm, a)
    return p


def scene_units(size=6):
    return [dict(kind='scene', lo=lo, hi=hi) for lo, hi in chunks(len(list(scene_descs())), size)]


def scenes(unit, ctx):
    """(k, mesh, flag, props of nodes, props of elements, name)"""
    for k, (nm, m) in enumerate(scene_descs()):
        if not unit['lo'] <= k < unit['hi']:
            continue
        for nodal in (True, False):
            if ctx.case(dict(scene=nm, nodal=nodal)):
                ctx.state()
                flag = [(False, 0, np.False_), (True, 1, np.True_)][nodal][k % 3]
                yield k, m, flag, [scene_lam(i, k) for i in range(len(m['pts']))], [scene_lam(i, k+1) for i in range(len(m['tris']))], nm


def index_of(mesh, n):
    nid, _ = mesh_ids(mesh)
    return [mesh.nodes[nid(i)].index for i in range(n)]


def valid_index(idx):
    return sorted(idx) == list(range(len(idx)))


class Poison(object):
    """A laminate that must not be read."""

    def __getattr__(self, name):
        raise AssertionError('a laminate that does not belong to the computation was read (.%s)' % name)


METHODS = ['cell-based', 'cell-based-no-smoothing', 'edge-based']


def assemble(mesh, n, nodal, d=None, methods=METHODS, idx=None, **kw):
    """All matrices of a mesh, in model node order."""
    K = np.array(I.calc_k0(mesh, nodal))
    idx = idx or index_of(mesh, n)
    out = {'k0': rf.from_impl(K, idx)}
    for me in methods:
        S = np.zeros((5*n, 5*n))
        I.add_k0s(S, mesh, nodal, me, **kw)
        out[me] = rf.from_impl(S, idx)
    if d is not None:
        out['kG'] = rf.from_impl(I.calc_kG(rf.to_impl_vec(d, idx), mesh, nodal), idx)
    return out


def reference(g, props, nodal, d=None, methods=METHODS, **kw):
    """name -> list of (matrix, magnitude): the definition first, then the
    recorded defect (edge-based only)."""
    out = {'k0': [rf.k0(g, props, nodal)]}
    for me in methods:
        out[me] = [rf.k0s(g, props, nodal, me, **kw)]
        if me == 'edge-based' and any(len(t) == 2 for t in g.edges.values()):
            out[me].append(rf.k0s(g, props, nodal, me, defect_B=True, **kw))
    if d is not None:
        out['kG'] = [rf.kG(g, props, nodal, d)]
    return out


def magnitudes(g, props, nodal, d=None, methods=METHODS, **kw):
    """name -> rounding magnitude of every entry"""
    r = reference(g, props, nodal, d, methods, **kw)
    return {k: np.max([a for _, a in v], axis=0) for k, v in r.items()}


def same(ctx, got, ref, what):
    """got: name -> matrix; ref: name -> list of acceptable (matrix, magnitude)."""
    for k in ref:
        ctx.check(any(rf.close(got[k], R, A) for R, A in ref[k]),
                  '%s: %s %s' % (what, k, rf.worst(got[k], *ref[k][0])))


def dense_d(n, k=0):
    i = np.arange(5*n)
    return np.sin(1.3*i + 0.7*k + 0.2)*(1 + (i % 5))*(0.3 + 0.1*((i//5) % 3))
