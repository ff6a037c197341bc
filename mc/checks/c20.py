"""C20: no function modifies or keeps hold of its inputs."""
import copy
import itertools
import os
import shutil
import tempfile
from types import SimpleNamespace

import numpy as np

from .. import common as cm, meshspace as ms, refmodel as rf
from ..impl import I

LEVEL = 'model_checking'
RULE = ('all sequences of calls up to the depth bound on one set of shared inputs; after every call the inputs, the earlier '
        'results and the global constants are compared bit by bit with their state before, and every returned array is '
        'tested for memory shared with inputs, mesh and earlier results, then overwritten')
BOUNDS = {'quick': 'all sequences of 3 out of 23 calls on one world, all ordered pairs for each of 6 input forms; every call twice with inputs of 5 magnitudes, of mixed magnitudes and of mixed signs in 4 forms',
          'thorough': 'all sequences of 3 out of 23 calls for each of 6 input forms; all sequences of 4 mesh calls'}
ASSUMPTIONS = ['the constitutive assembly may store bookkeeping (index, domains) in the mesh; everything else is compared',
               'read-only arrays are valid inputs wherever they are only read']

FORMS = ['array', 'list', 'readonly', 'tuple', 'fortran', 'view']


def freeze(o):
    import sympy
    if isinstance(o, np.ndarray):
        return ('nd', o.dtype.str, o.shape, o.tobytes() if o.dtype != object else tuple(freeze(v) for v in o.ravel()), o.flags.writeable)
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, id(o)) + tuple(freeze(v) for v in o)
    if isinstance(o, dict):
        return ('dict', id(o), tuple((freeze(k), freeze(v)) for k, v in o.items()))
    if isinstance(o, sympy.MatrixBase):
        return ('M', o.shape, tuple(sympy.srepr(v) for v in list(o)))
    if isinstance(o, sympy.Basic):
        return sympy.srepr(o)
    if isinstance(o, SimpleNamespace):
        return ('ns', id(o), tuple((k, id(v), freeze(v)) for k, v in sorted(vars(o).items())))
    if type(o).__module__.startswith('scipy.'):
        return ('qhull', freeze(o.points), freeze(o.simplices))
    return repr(o)


def arrays(o, out=None):
    out = [] if out is None else out
    if isinstance(o, np.ndarray):
        out.append(o)
    elif isinstance(o, (list, tuple)):
        for v in o:
            arrays(v, out)
    elif isinstance(o, dict):
        for v in o.values():
            arrays(v, out)
    elif isinstance(o, SimpleNamespace):
        for v in vars(o).values():
            arrays(v, out)
    return out


def shape_of(a, form):
    """The same values in another container."""
    a = np.array(a, dtype=float)
    if form == 'list':
        return a.tolist()
    if form == 'tuple':
        return tuple(tuple(r) if isinstance(r, list) else r for r in a.tolist())
    if form == 'readonly':
        a.setflags(write=False)
        return a
    if form == 'fortran':
        return np.asfortranarray(a)
    if form == 'view':
        b = np.zeros([2*s for s in a.shape])
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    return a


def nd_form(form):
    return 'array' if form in ('list', 'tuple') else form


DECK = """SOL 101
CEND
BEGIN BULK
MAT1,1,71.+9,,.33
PSHELL,1,1,.01
GRID,1,,0.,0.,0.
GRID,2,,2.,.1,0.
GRID,3,,2.1,1.7,0.
GRID,4,,-.1,1.5,0.
CTRIA3,1,1,1,2,3
CTRIA3,2,1,3,4,1
ENDDATA
"""


class World(object):
    """Shared inputs of all calls, in one form."""

    def __init__(self, form, tmp):
        import sympy
        self.form = form
        x, y = sympy.symbols('x y')
        inp = self.inp = {}
        pts2 = [[0, 0], [2, .1], [2.1, 1.7], [-.1, 1.5], [1, .8]]
        self.tris = [[0, 1, 4], [2, 1, 4], [2, 3, 4], [4, 3, 0]]
        inp['points2'] = shape_of(pts2, form)
        inp['points3'] = shape_of([p + [.5] for p in pts2], form)
        inp['rows'] = [np.array(p + [.25]) for p in pts2]
        inp['tri'] = SimpleNamespace(simplices=np.array(self.tris))
        from scipy.spatial import Delaunay
        inp['cloud'] = np.array(pts2)
        inp['delaunay'] = Delaunay(inp['cloud'])
        self.deck = os.path.join(tmp, 'deck.dat')
        with open(self.deck, 'w') as f:
            f.write(DECK)
        inp['lams'] = [self.lam(k) for k in range(4)]
        inp['d'] = shape_of(cm.dense_d(5), nd_form(form))
        inp['xs'], inp['ys'], inp['zs'] = (shape_of(v, form) for v in ([0, 1, 2.5], [-1, .5, 3], [2, 0, 4.5]))
        inp['one'] = shape_of([1.5], form)
        inp['qx'], inp['qy'], inp['qz'] = (shape_of(v, nd_form(form)) for v in ([.3, 1.1, 2.], [0, .2, 2.2], [1., 3., 5.]))
        inp['f2'] = shape_of(np.arange(9.).reshape(3, 3)**1.5, form)
        inp['f3'] = shape_of(np.arange(27.).reshape(3, 3, 3)**1.5, nd_form(form))
        inp['f1'] = shape_of([[7.]], form)
        inp['M'] = sympy.Matrix([[x**3*y, 0, x+y], [y**2, x*y, sympy.sin(x+y)*(x+y)]])
        inp['subs'] = {x: sympy.Symbol('t'), y: sympy.Integer(3)}
        inp['collect'] = [x, y]
        inp['poly'] = [shape_of(v, form) for v in ([0, 2, 2, 1, 0], [0, 0, 1, 3, 1])]
        inp['vec'] = shape_of([3, -4, 12], nd_form(form))
        inp['ivec'] = np.array([3, 4, 0])
        inp['units'] = [shape_of(v, nd_form(form)) for v in ([1, 0, 0], [0, -1, 0], [.6, .8, 0], [1., 0.], [0., .5, 0.])] + \
            [np.array([0, 0, 1]), np.array([3., 4., 0.])/5]
        inp['K'] = np.zeros((25, 25))
        self.mesh = I.read_delaunay(np.array(pts2), SimpleNamespace(simplices=np.array(self.tris)))
        for i, nd in self.mesh.nodes.items():
            nd.prop = inp['lams'][i % 4]
        for i, el in self.mesh.elements.items():
            el.prop = inp['lams'][(i+1) % 4]
        I.calc_k0(self.mesh, True)
        c = I.constants
        inp['constants'] = [c.XGLOBAL, c.YGLOBAL, c.ZGLOBAL]
        self.results = []
        self.outdir = tmp

    def lam(self, k):
        p = rf.generic(k)
        if self.form == 'readonly':
            for a in 'ABDE':
                getattr(p, a).setflags(write=False)
        return p

    # -- snapshots
    def frozen(self):
        return {k: freeze(v) for k, v in self.inp.items() if k != 'K'}

    def mesh_state(self, bookkeeping):
        m = self.mesh
        out = {}
        for i, n in m.nodes.items():
            out['node', i] = (id(n), freeze(np.array(n.xyz)), id(n.prop), sorted(n.trias), sorted(map(id, n.edges)), n.nid)
            if bookkeeping:
                out['index', i] = n.index
        for i, e in m.elements.items():
            out['elem', i] = (id(e), e.eid, [id(x) for x in e.nodes], id(e.prop), [id(x) for x in e.edges], list(e.node_ids))
        for k, e in m.edges.items():
            out['edge', k] = (id(e), id(e.n1), id(e.n2), [id(t) for t in e.trias], [id(x) for x in e.nodes], list(e.node_ids))
            if bookkeeping:
                out['domain', k] = (e.Ac, freeze(np.array(e.sdomain)), [(p.f1, p.f2, p.f3, p.nx, p.ny, p.nz, p.le, id(p.n1), id(p.n2), id(p.n3))
                                                                        for p in e.ipts])
        return out

    def mesh_arrays(self):
        return [n.xyz for n in self.mesh.nodes.values()] + [e.sdomain for e in self.mesh.edges.values() if isinstance(e.sdomain, np.ndarray)]


def read_d(w, key, tri):
    m = I.read_delaunay(w.inp[key], w.inp[tri])
    return [n.xyz for n in m.nodes.values()] + [np.array([[x.nid for x in e.nodes] for e in m.elements.values()])]


def read_m(w):
    m = I.read_mesh(w.deck)
    with open(w.deck) as f:
        assert f.read() == DECK, 'the deck file was changed'
    return [m.nodes[i].xyz for i in sorted(m.nodes)]


def add(w, method, nodal, **kw):
    K = np.zeros((25, 25))
    I.add_k0s(K, w.mesh, nodal, method, **kw)
    return [K]


def geometry(w):
    m = w.mesh
    e = next(iter(m.edges.values()))
    el = next(iter(m.elements.values()))
    a, b, c = el.nodes
    ed = I.Edge(a, b)
    ip = I.IntegrationPoint(el, a, b, c, 1., 0., 0., 0., 1., 0., 2.)
    c = w.inp['constants']
    return [I.utils.unitvec(v) for v in w.inp['units'] + c] + [
            I.utils.unitvec(w.inp['vec']), I.utils.unitvec(w.inp['ivec']), np.array(I.utils.area_of_polygon(*w.inp['poly'])),
            I.utils.getMid(el), e.getMid(), ed.getMid(), ip.xyz]


def logs(w):
    L = I.logger
    return [np.array([ord(ch) for f in (L.msg, L.warn, L.error) for ch in f('text', silent=True)])]


OPS = {
    'RD2': lambda w: read_d(w, 'points2', 'tri'),
    'RD3': lambda w: read_d(w, 'points3', 'tri'),
    'RDr': lambda w: read_d(w, 'rows', 'tri'),
    'RDd': lambda w: read_d(w, 'cloud', 'delaunay'),
    'RM': read_m,
    'Kn': lambda w: [I.calc_k0(w.mesh, True)],
    'Ke': lambda w: [I.calc_k0(w.mesh, False)],
    'Sc': lambda w: add(w, cm.METHODS[0], True) + add(w, cm.METHODS[0], False, maxl_from_area=True),
    'Sx': lambda w: add(w, cm.METHODS[1], True) + add(w, cm.METHODS[1], False, alpha=.3),
    'Se': lambda w: add(w, cm.METHODS[2], True) + add(w, cm.METHODS[2], False),
    'Gn': lambda w: [I.calc_kG(w.inp['d'], w.mesh, True)],
    'Ge': lambda w: [I.calc_kG(w.inp['d'], w.mesh, False)],
    'L2': lambda w: [I.lag2(w.inp['qx'], w.inp['qy'], w.inp['xs'], w.inp['ys'], w.inp['f2'])],
    'L2s': lambda w: [np.asarray(I.lag2(w.inp['qx'], w.inp['qx'], w.inp['xs'], w.inp['xs'], w.inp['f2'])),
                      np.asarray(I.lag2(w.inp['qx'], w.inp['qx'], w.inp['one'], w.inp['one'], w.inp['f1']))],
    'L3': lambda w: [I.lag3(w.inp['qx'], w.inp['qy'], w.inp['qz'], w.inp['xs'], w.inp['ys'], w.inp['zs'], w.inp['f3'])],
    'pd': lambda w: [text(I.sy.mprint_as_dense(w.inp['M'], 'A', subs=w.inp['subs'], print_file=False))],
    'pdc': lambda w: [text(I.sy.mprint_as_dense(w.inp['M'], 'A', collect_for=w.inp['collect'], print_file=True, dofpernode=2))],
    'ps': lambda w: [text(I.sy.mprint_as_sparse(w.inp['M'], 'A', subs=w.inp['subs'], print_file=False, dofpernode=2, is_symmetric=True))],
    'psc': lambda w: [text(I.sy.mprint_as_sparse(w.inp['M'], 'A', collect_for=w.inp['collect'], print_file=True))],
    'pa': lambda w: [text(I.sy.mprint_as_array(w.inp['M'], 'A', use_cse=True, print_file=False, order='F'))],
    'pac': lambda w: [text(I.sy.mprint_as_array(w.inp['M'], 'A', collect_for=w.inp['collect'], print_file=False))],
    'geo': geometry,
    'log': logs,
}
MESHOPS = ['Kn', 'Ke', 'Sc', 'Sx', 'Se', 'Gn', 'Ge']


def text(s):
    return np.frombuffer(bytearray(s.encode()), dtype=np.uint8)


def value(r):
    return [np.array(a) for a in r]


def equal(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.allclose(x, y, rtol=1e-12, atol=0) for x, y in zip(a, b))


def step(ctx, w, op, seq, first):
    before = w.frozen()
    mstate = w.mesh_state(True)
    kept = [(o, freeze(r)) for o, r in w.results]
    r = OPS[op](w)
    ctx.trans()
    ctx.trace()
    after = w.frozen()
    diff = [k for k in before if before[k] != after[k]]
    ctx.check(not diff, '%s changes its inputs: %s' % (op, diff))
    keep = op not in ('Kn', 'Ke')
    mnow = w.mesh_state(True)
    mdiff = [k for k in mstate if mstate[k] != mnow.get(k) and (keep or k[0] not in ('domain', 'index'))]
    ctx.check(not mdiff, '%s changes the mesh: %s' % (op, mdiff[:3]))
    for (o, f), (_, res) in zip(kept, w.results):
        ctx.check(f == freeze(res), '%s changes an earlier result of %s' % (op, o))
    own = arrays({k: v for k, v in w.inp.items()})
    marr = w.mesh_arrays()
    old = [a for _, res in w.results for a in res]
    for k, a in enumerate(r):
        if not isinstance(a, np.ndarray):
            continue
        for what, others in (('an input', own), ('the mesh', marr), ('an earlier result', old), ('another result of the call', r[:k])):
            hit = [b for b in others if isinstance(b, np.ndarray) and a.size and b.size and np.may_share_memory(a, b) and np.shares_memory(a, b)]
            ctx.check(not hit, 'result %d of %s shares memory with %s' % (k, op, what))
    # the same call on the same world gives the same values, whatever was done with earlier results
    v = value(r)
    if op in first:
        ctx.check(equal(v, first[op]), '%s gives another result after %s' % (op, '.'.join(seq)))
    first.setdefault(op, v)
    for a in r:
        if isinstance(a, np.ndarray) and a.flags.writeable and a.dtype.kind == 'f':
            a[...] = -777.25
    after2 = w.frozen()
    ctx.check(all(before[k] == after2[k] for k in before), 'writing to the result of %s changes its inputs' % op)
    m2 = w.mesh_state(True)
    ctx.check(all(mnow[k] == m2.get(k) for k in mnow), 'writing to the result of %s changes the mesh' % op)
    w.results.append((op, r))


_first = {}


def firsts(form, tmp):
    """Values of every call on a new world."""
    if form not in _first:
        t = {}
        for op in OPS:
            t[op] = value(OPS[op](World(form, tmp)))
        _first[form] = t
    return {k: v for k, v in _first[form].items()}


def plan(tier):
    u = []
    names = sorted(OPS)
    if tier == 'quick':
        u += [dict(kind='seq', form='array', pre=[a, b], n=3) for a in names for b in names]
        u += [dict(kind='seq', form=f, pre=[a], n=2) for f in FORMS[1:] for a in names]
    else:
        u += [dict(kind='seq', form=f, pre=[a, b], n=3) for f in FORMS for a in names for b in names]
        u += [dict(kind='mesh', form='array', pre=[a, b], n=4) for a in MESHOPS for b in MESHOPS]
    u += [dict(kind='inout', form=f) for f in ('array', 'readonly')]
    u += [dict(kind='scale', form=f) for f in ('array', 'fortran', 'view', 'list')]
    return u


def run(unit, ctx):
    tmp = tempfile.mkdtemp(prefix='mc_c20_')
    cwd = os.getcwd()
    os.chdir(tmp)
    try:
        _run(unit, ctx, tmp)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


def _run(unit, ctx, tmp):
    form = unit['form']
    if unit['kind'] == 'inout':
        return inout(ctx, form, tmp)
    if unit['kind'] == 'scale':
        return scaled(ctx, form, tmp)
    pool = MESHOPS if unit['kind'] == 'mesh' else sorted(OPS)
    for rest in itertools.product(pool, repeat=unit['n'] - len(unit['pre'])):
        seq = list(unit['pre']) + list(rest)
        if not ctx.case(dict(form=form, seq=seq)):
            continue
        ctx.state()
        w = World(form, tmp)
        first = firsts(form, tmp)
        for k, op in enumerate(seq):
            step(ctx, w, op, seq[:k], first)
        ctx.outcome((form, seq))


FACTORS = [7.123e-12, .0123, -31.7, 7.123e3, 1.37e9, 'wide', 'signs']


def times(v, f):
    if isinstance(f, str):
        # neighbours of very different size, negative zeros
        a = np.array(v, float)
        k = np.arange(a.size).reshape(a.shape)
        if f == 'wide':
            a = a*10.**(-9.*(k % 4))
        else:
            a[(k % 3 == 1) & (a == 0)] = -0.
            a = np.where(k % 2, -a, a)
        if isinstance(v, (list, tuple)):
            return a.tolist() if not isinstance(v, tuple) else times_tuple(a)
        return like(v, a)
    if isinstance(v, (int, float)):
        return v*f
    if isinstance(v, (list, tuple)):
        return type(v)(times(x, f) for x in v)
    return like(v, v*f)


def times_tuple(a):
    return tuple(times_tuple(x) if isinstance(x, np.ndarray) else float(x) for x in a)


def like(v, a):
    """values a in the memory layout of v"""
    if v.flags.f_contiguous and v.ndim > 1:
        return np.asfortranarray(a)
    if v.flags.c_contiguous or v.base is None:
        return np.ascontiguousarray(a)
    b = np.zeros([2*s for s in v.shape])
    out = b[tuple(slice(None, None, 2) for _ in v.shape)]
    out[...] = a
    return out


def scaled(ctx, form, tmp):
    """numbers of other sizes, which do not survive a division and a multiplication"""
    for f, op in itertools.product(FACTORS, sorted(OPS)):
        if not ctx.case(dict(form=form, factor=f, op=op)):
            continue
        ctx.state()
        w = World(form, tmp)
        for k in ('points2', 'points3', 'd', 'xs', 'ys', 'zs', 'one', 'qx', 'qy', 'qz', 'f2', 'f3', 'f1', 'poly', 'vec'):
            w.inp[k] = times(w.inp[k], f)
        first = {}
        step(ctx, w, op, [], first)
        step(ctx, w, op, [op], first)
        ctx.outcome((form, f, op))


def inout(ctx, form, tmp):
    """The one documented in-place argument: only it changes, and it is kept by nobody."""
    for method, nodal, nodal2 in itertools.product(cm.METHODS, (True, False), (True, False)):
        if not ctx.case(dict(inout=method, nodal=nodal, nodal2=nodal2)):
            continue
        ctx.state()
        ctx.trans(3)
        w = World(form, tmp)
        K = I.calc_k0(w.mesh, nodal2)
        K1 = K.copy()
        before, mstate = w.frozen(), w.mesh_state(True)
        r = I.add_k0s(K, w.mesh, nodal, method)
        ctx.trace()
        ctx.check(w.frozen() == before, '%s changes its inputs' % method)
        ctx.check(w.mesh_state(True) == mstate, '%s changes the mesh' % method)
        ctx.check(not np.array_equal(K, K1), 'nothing was added')
        keep = K.copy()
        S = np.zeros_like(K)
        I.add_k0s(S, w.mesh, nodal, method)
        ctx.check(np.array_equal(K, keep), 'an earlier matrix changes when shear stiffness is added to another one')
        ctx.check(np.allclose(S, keep - K1, rtol=1e-9, atol=1e-9*np.abs(keep).max()), 'the increment depends on the matrix it is added to')
        K2 = I.calc_k0(w.mesh, nodal2)
        ctx.check(np.array_equal(K, keep) and np.array_equal(K2, K1), 'assembling again gives another matrix')
        ctx.outcome((method, nodal, nodal2))
