"""C13: results depend only on the current mesh state, not on the call history."""
import gc
import itertools

import numpy as np

from .. import common as cm, meshspace as ms, pure, refmodel as rf
from ..impl import I
from . import c24

LEVEL = 'model_checking'
RULE = ('all operation sequences up to the depth bound over assemblies, methods, property edits, node moves, refused calls, a '
        'second mesh and unrelated calls are executed on one living mesh; after every operation the result is compared '
        'with that of a newly built mesh in the model state, obtained in a process of its own')
OPS = ['Kn', 'Ke', 'Sc', 'Sx', 'Se', 'Gn', 'Ge', 'P', 'Q', 'M', 'B', 'I', 'X']
NAMES = {'Kn': 'calc_k0 nodal', 'Ke': 'calc_k0 elemental', 'Sc': 'cell-based nodal', 'Sx': 'no smoothing elemental',
         'Se': 'edge-based nodal', 'Gn': 'calc_kG nodal', 'Ge': 'calc_kG elemental', 'P': 'other laminates',
         'Q': 'laminates changed in place', 'M': 'move nodes', 'B': 'all assemblies on a second mesh',
         'I': 'interpolation and printing', 'X': 'refused assembly'}
BOUNDS = {'quick': 'all enabled sequences of length 4 over 13 operations on 2 meshes; all sequences of 3 of 5 meshes living one after the other; '
                   'all pairs of 21 calls with other parameters, displacements, sources or thickness, each with 3 third calls (the first again, a new thickness, another); all pairs of 8 sets of further nodes with 3 third ones, on 5 point sets; '
                   'all steps between two subsets of the elements, and all sets of nodes moved together by 5 shifts and back, on the full '
                   'triangulations of 7 point sets',
          'thorough': 'all enabled sequences of length 5 over 13 operations on 1 mesh, length 4 on 4 meshes'}
ASSUMPTIONS = ['shear and geometric stiffness are used only after a constitutive assembly following the last node move '
               '(edge domains are documented to be stored by it)']

MESHES = {
    'kite': ('kite', -1, 'skew', 0.0, 3), 'quad_c': ('quad_c', -2, 'neg', -1.0, 5), 'tri': ('tri', 0, 'skew', 0.0, 0),
    'dart': ('dart', -1, 'mirror', 0.5, 3),
}
METH = {'Sc': (cm.METHODS[0], True), 'Sx': (cm.METHODS[1], False), 'Se': (cm.METHODS[2], True)}
D2 = {}


def model_mesh(name, geo):
    ps, s, mp, z, v = MESHES[name]
    m = ms.desc(ps, ms.families(ps)[0][s], mp, z, v)
    if geo and name == 'tri':
        # one node alone, then everything turned by a right angle about that node
        p = [list(q) for q in m['pts']]
        p[2] = [p[2][0] + 0.13, p[2][1] - 0.08]
        if geo == 2:
            cx, cy = p[2]
            p = [[cx - (y - cy), cy + (x - cx)] for x, y in p]
        m['pts'] = p
    elif geo == 1 and name == 'kite':
        # two nodes by opposite amounts: sums, means and the other nodes stay
        p = [list(q) for q in m['pts']]
        p[1], p[3] = [p[1][0] + 0.1, p[1][1] - 0.07], [p[3][0] - 0.1, p[3][1] + 0.07]
        m['pts'] = p
    elif geo:
        m['pts'] = [[x + 0.11*geo*np.sin(2*i + geo), y - 0.09*geo*np.cos(3*i)] for i, (x, y) in enumerate(m['pts'])]
    return m


def lam_at(i, P, Q):
    p = rf.generic((i + P) % 3)
    if Q and i % 2:
        # only what a summary by A, D and h does not show
        p.B, p.E = -p.B, p.E[::-1, ::-1].copy()
        p.scf_k13, p.scf_k23 = p.scf_k23, p.scf_k13
    elif Q:
        p.A, p.D = p.A*1.5, p.D*0.75
        p.h *= 1.25
        p.E = p.E*2
    return p


def result(op, mesh, n, variant=0):
    """value of an assembly operation, rows in model node order"""
    idx = None
    if op[0] == 'K':
        K = np.array(I.calc_k0(mesh, op == 'Kn'))
    elif op[0] == 'S':
        K = np.zeros((5*n, 5*n))
        I.add_k0s(K, mesh, METH[op][1], METH[op][0])
    else:
        idx = cm.index_of(mesh, n)
        K = np.array(I.calc_kG(rf.to_impl_vec(cm.dense_d(n, 1 + variant), idx), mesh, op == 'Gn'))
    return rf.from_impl(K, cm.index_of(mesh, n))


def fresh(name, state, op):
    geo, P, Q = state
    m = model_mesh(name, geo)
    n = len(m['pts'])
    mesh = ms.build(I, m)
    cm.assign(mesh, [lam_at(i, P, Q) for i in range(n)], [lam_at(i+1, P, Q) for i in range(len(m['tris']))])
    if op[0] != 'K':
        I.calc_k0(mesh, True)
    return result(op, mesh, n)


def other_mesh(name):
    """same size, other geometry and laminates"""
    m = model_mesh(name, 0)
    m = dict(m, pts=[[-1.3*y + 0.2, 0.9*x - 3] for x, y in m['pts']], z=m['z'] + 1)
    mesh = ms.build(I, m)
    n = len(m['pts'])
    cm.assign(mesh, [rf.generic(4)]*n, [rf.generic(3)]*len(m['tris']))
    return mesh, n


def other_run(name, mesh=None, n=None):
    if mesh is None:
        mesh, n = other_mesh(name)
    return [result(op, mesh, n, 7) for op in ('Ke', 'Kn', 'Gn', 'Sc', 'Sx', 'Se', 'Ge')]


# meshes that live one after the other and may get the addresses of their predecessors
LIVES = [('kite', 'skew', 0, 0), ('kite', 'neg', 1, 0), ('kite', 'skew', 2, 1), ('dart', 'skew', 0, 1), ('quad', 'mirror', 1, 1)]


def life(k):
    ps, mp, P, rev = LIVES[k]
    m = ms.desc(ps, ms.maximal(ps)[0], mp, 0.3*k, k)
    if rev:
        m['tris'] = m['tris'][::-1]
    n = len(m['pts'])
    mesh = ms.build(I, m)
    cm.assign(mesh, [lam_at(i, P, rev) for i in range(n)], [lam_at(i+1, P, rev) for i in range(len(m['tris']))])
    return [result(op, mesh, n, k) for op in ('Ke', 'Kn', 'Gn', 'Sc', 'Sx', 'Se', 'Ge')]


def unrelated():
    sympy = __import__('sympy')
    x, y = sympy.symbols('x y')
    mat = sympy.Matrix([[x**3*y, 0, x+y], [y**2, x*y, 1]])
    z = [0., 1., 2.5]
    f3 = np.arange(27.).reshape(3, 3, 3)**1.5
    return [I.lag2(np.array([.3, 1.7]), np.array([2., .1]), z, [-1., 0., 2.], f3[0]),
            I.lag3(np.array([.3, 1.7]), np.array([2., .1]), np.array([1., -1.]), z, z, z, f3),
            I.sy.pow2mul('a**3+pow(b,2)*(c+d)**2'),
            I.sy.mprint_as_dense(mat, 'K', print_file=False), I.sy.mprint_as_sparse(mat, 'K', print_file=False),
            I.sy.mprint_as_array(mat, 'K', print_file=False, use_cse=True),
            I.utils.area_of_polygon([0, 2, 2, 0], [0, 0, 1, 1]), I.utils.unitvec(np.array([3., 4., 0.]))]


_table = {}


def reference(names):
    todo = {}
    for name in names:
        for st in itertools.product(range(3), range(2), range(2)):
            for op in OPS[:7]:
                if (name, st, op) not in _table:
                    todo[name, st, op] = (fresh, (name, st, op))
        if (name, 'B') not in _table:
            todo[name, 'B'] = (other_run, (name,))
    for k in range(len(LIVES)):
        todo['life', k] = (life, (k,))
    if 'I' not in _table:
        todo['I'] = (unrelated, ())
    _table.update(pure.table(todo))


def plan(tier):
    I.calc_k0
    meshes = ['tri', 'kite'] if tier == 'quick' else ['tri', 'kite', 'dart', 'quad_c']
    reference(meshes)
    u = []
    for name in meshes:
        depth = 5 if tier == 'thorough' and name == 'tri' else 4
        for pre in itertools.product(OPS, repeat=2):
            if enabled(pre) is not None:
                u.append(dict(mesh=name, pre=list(pre), depth=depth))
    np_ = len(PARAMS)
    for a in range(np_):
        u += [dict(kind='params', pre=[a, b], depth=3 if tier == 'quick' else 4) for b in range(np_)]
    u += [dict(kind='nodes', ps=ps, s=s, all=tier != 'quick') for ps in ('tri', 'quad', 'kite', 'dart', 'quad_c') for s in range(len(ms.maximal(ps)))]
    for ps in cm.SMALL:
        for s in range(len(ms.maximal(ps))):
            u += [dict(kind='moves', ps=ps, s=s), dict(kind='edits', ps=ps, s=s)]
    return [dict(kind='lives', first=k, depth=3 if tier == 'quick' else 4) for k in range(len(LIVES))] + u


def judge_all(ctx, mesh, m, S, pn, pe):
    """every assembly from both sources against the definition for the triangles which are left"""
    n = len(pn)
    g = rf.Geo(dict(m, tris=[m['tris'][k] for k in S]))
    for nodal in (True, False):
        props = pn if nodal else [pe[k] for k in S]
        d = cm.dense_d(n, len(S))
        cm.same(ctx, cm.assemble(mesh, n, nodal, d), cm.reference(g, props, nodal, d), 'triangles %s of %s' % (S, m['tris']))
        ctx.trace()


SHIFTS = [(3., 0.), (0., -3.), (6., 3.), (-.5, .25), (1e-9, 0.)]


def moves(ctx, unit):
    """every set of nodes moved together on an assembled mesh; coordinates are multiples of six, so that areas which do not
    change are the same numbers"""
    ps, s = unit['ps'], unit['s']
    pts = [[6.*x, 6.*y] for x, y in ms.POINTSETS[ps]]
    tris = ms.maximal(ps)[s]
    n = len(pts)
    for code in range(1, 1 << n):
        for q, (dx, dy) in enumerate(SHIFTS):
            new = [[x + dx, y + dy] if code >> i & 1 else [x, y] for i, (x, y) in enumerate(pts)]
            if any(ms.orient(*[new[v] for v in t]) <= 1e-3 for t in tris):
                continue
            if not ctx.case(dict(ps=ps, s=s, nodes=code, shift=q)):
                continue
            ctx.state()
            ctx.trans(2)
            m = ms.make(pts, ms.reorder(tris, (code + q) % 12), 0.)
            pn, pe = [cm.gen(i % 4) for i in range(n)], [cm.gen((i+1) % 4) for i in range(len(tris))]
            mesh = ms.build(I, m)
            cm.assign(mesh, pn, pe)
            nodal = (code + q) % 2 == 0
            I.calc_k0(mesh, nodal)
            for p in (new, pts):
                for i, xy in enumerate(p):
                    mesh.nodes[i+1].xyz = np.array([xy[0], xy[1], 0.])
                d = cm.dense_d(n, code)
                props = pn if nodal else pe
                cm.same(ctx, cm.assemble(mesh, n, nodal, d), cm.reference(rf.Geo(dict(m, pts=p)), props, nodal, d),
                        'nodes %s moved by %s' % ([i for i in range(n) if code >> i & 1], (dx, dy)))
                ctx.trace()
            ctx.outcome((ps, s, code, q))


# one method with another parameter, another displacement, another source
PARAMS = [(me, nodal, al, mx) for me, nodal, al, mx in (
    (cm.METHODS[0], True, .08, False), (cm.METHODS[0], True, .5, False), (cm.METHODS[0], True, .08, True), (cm.METHODS[0], False, .08, False),
    (cm.METHODS[0], False, 0., True), (cm.METHODS[1], True, .08, False), (cm.METHODS[1], True, .5, True), (cm.METHODS[1], False, .5, False),
    (cm.METHODS[1], False, .08, True), (cm.METHODS[2], True, .08, False), (cm.METHODS[2], True, .5, True), (cm.METHODS[2], False, .5, False))
] + [('kG', nodal, v, None) for nodal in (True, False) for v in (0, 1, 2)] + [('k0', True, None, None), ('k0', False, None, None)] + [
    ('thick', None, None, None)]


def param_mesh(thick):
    m = ms.desc('quad_c', ms.maximal('quad_c')[0], 'skew', .5, 3)
    return m, [thicker(cm.gen(i % 3), thick) for i in range(len(m['pts']))], [thicker(cm.gen((i+1) % 3), thick) for i in range(len(m['tris']))]


def thicker(p, f):
    q = rf.generic(0)
    for a in ('A', 'B', 'D', 'E', 'h', 'scf_k13', 'scf_k23'):
        v = getattr(p, a)
        setattr(q, a, v.copy() if isinstance(v, np.ndarray) else v)
    q.h *= f
    return q


def param_vec(n, v):
    # the third has the second one's sum, size and ends
    d = cm.dense_d(n, 1 + v % 2)
    if v == 2:
        d[5:-5] = d[5:-5][::-1].copy()
    return d


def param_ref(op, thick):
    what, nodal, al, mx = op
    m, pn, pe = param_mesh(thick)
    g = rf.Geo(m)
    props = pn if nodal else pe
    if what == 'kG':
        return [rf.kG(g, props, nodal, param_vec(len(pn), al))]
    if what == 'k0':
        return [rf.k0(g, props, nodal)]
    out = [rf.k0s(g, props, nodal, what, alpha=al, maxl_from_area=mx)]
    if what == cm.METHODS[2]:
        out.append(rf.k0s(g, props, nodal, what, alpha=al, maxl_from_area=mx, defect_B=True))
    return out


_pref = {}


def params(ctx, unit):
    for rest in itertools.product(range(len(PARAMS)), repeat=unit['depth'] - 2):
        seq = tuple(unit['pre']) + rest
        if unit['depth'] == 3 and rest[0] not in (seq[0], len(PARAMS)-1, (seq[1]+1) % len(PARAMS)):
            continue
        if not ctx.case(dict(params=seq)):
            continue
        ctx.state()
        thick = 1.
        m, pn, pe = param_mesh(thick)
        n = len(pn)
        mesh = ms.build(I, m)
        cm.assign(mesh, pn, pe)
        I.calc_k0(mesh, False)
        idx = cm.index_of(mesh, n)
        for pos, k in enumerate(seq):
            ctx.trans()
            op = what, nodal, al, mx = PARAMS[k]
            if what == 'thick':
                # the thickness alone, on the same laminates
                thick = 1.25 if thick == 1. else 1.
                _, qn, qe = param_mesh(thick)
                for p, q in zip(pn + pe, qn + qe):
                    p.h = q.h
                continue
            if what == 'kG':
                got = I.calc_kG(rf.to_impl_vec(param_vec(n, al), idx), mesh, nodal)
            elif what == 'k0':
                got = I.calc_k0(mesh, nodal)
            else:
                got = np.zeros((5*n, 5*n))
                I.add_k0s(got, mesh, nodal, what, alpha=al, maxl_from_area=mx)
            ctx.trace()
            if (k, thick) not in _pref:
                _pref[k, thick] = param_ref(op, thick)
            got = rf.from_impl(np.array(got), cm.index_of(mesh, n))
            ctx.check(any(rf.close(got, R, A) for R, A in _pref[k, thick]), '%s after %s: %s' % (
                op, [PARAMS[q] for q in seq[:pos]], rf.worst(got, *_pref[k, thick][0])))
        ctx.outcome(('params', seq))


def lone(nid, k):
    from pyNastran.bdf.bdf import GRID
    g = GRID(nid, cp=0, cd=0, xyz=np.array([7. + k, -2.*k, 0.]))
    g.edges, g.trias, g.index, g.prop = set(), set(), None, cm.gen(k % 3)
    return g


def nodes(ctx, unit):
    """every step between two sets of up to three further nodes, outside every element and with identifiers before and after the others"""
    ps, s = unit['ps'], unit['s']
    m = ms.desc(ps, ms.maximal(ps)[s], 'neg', .25, (5*s + 1) % 12)
    n = len(m['pts'])
    pn, pe = [cm.gen(i % 3) for i in range(n)], [cm.gen((i+1) % 3) for i in range(len(m['tris']))]
    g = rf.Geo(m)
    d = cm.dense_d(n, s)
    ref = {nodal: cm.reference(g, pn if nodal else pe, nodal, d) for nodal in (True, False)}
    new = [-3, 99, n+1]
    for a, b, c in itertools.product(range(8), repeat=3):
        if a == b or b == c or not unit['all'] and c not in (a, b ^ 1, 0) or not ctx.case(dict(ps=ps, s=s, nodes=(a, b, c))):
            continue
        ctx.state()
        mesh = ms.build(I, m)
        cm.assign(mesh, pn, pe)
        for pos, have in enumerate((a, b, c)):
            ctx.trans()
            for k, nid in enumerate(new):
                if have >> k & 1:
                    mesh.nodes.setdefault(nid, lone(nid, k))
                else:
                    mesh.nodes.pop(nid, None)
            N = n + bin(have).count('1')
            for nodal in ((a + b + pos) % 2 == 0, (a + b + pos) % 2 == 1):
                K = np.array(I.calc_k0(mesh, nodal))
                ctx.trace()
                idx = cm.index_of(mesh, n)
                rest = [mesh.nodes[nid].index for k, nid in enumerate(new) if have >> k & 1]
                if not ctx.check(K.shape == (5*N, 5*N) and sorted(idx + rest) == list(range(N)),
                                 '%d nodes after %s: shape %s, indices %s and %s' % (N, (a, b, c)[:pos], K.shape, idx, rest)):
                    continue
                got = {'k0': K}
                for me in cm.METHODS:
                    got[me] = np.zeros((5*N, 5*N))
                    I.add_k0s(got[me], mesh, nodal, me)
                full = rf.to_impl_vec(np.concatenate([d, cm.dense_d(N - n, 7)]) if N > n else d, idx + rest)
                got['kG'] = np.array(I.calc_kG(full, mesh, nodal))
                own = [5*i + q for i in rest for q in range(5)]
                for k in got:
                    ctx.check(not got[k][own].any() and not got[k][:, own].any(), '%s: a node outside every element has terms' % k)
                    got[k] = rf.from_impl(got[k], idx)
                cm.same(ctx, got, ref[nodal], '%d further nodes after %s' % (N - n, (a, b, c)[:pos]))
        ctx.outcome(('nodes', ps, s, a, b, c))


def enabled(seq):
    ok = False
    for op in seq:
        if op[0] == 'K':
            ok = True
        elif op == 'M':
            ok = False
        elif op[0] in 'SG' and not ok:
            return None
    return ok


def snapshot(mesh):
    out = {}
    for i, nd in mesh.nodes.items():
        out['node', i] = (id(nd), np.array(nd.xyz).tolist(), id(nd.prop), nd.index if isinstance(nd.index, int) else repr(nd.index),
                          sorted(nd.trias), sorted(map(id, nd.edges)))
        out['nprop', i] = lam_values(nd.prop)
    for i, el in mesh.elements.items():
        out['elem', i] = (id(el), [x.nid for x in el.nodes], id(el.prop), [id(e) for e in el.edges])
        out['eprop', i] = lam_values(el.prop)
    for k, e in mesh.edges.items():
        out['edge', k] = (id(e), e.n1.nid, e.n2.nid, [t.eid for t in e.trias], e.Ac, np.array(e.sdomain).tolist(),
                          [(p.f1, p.f2, p.f3, p.nx, p.ny, p.nz, p.le, p.n1.nid, p.n2.nid, p.n3.nid) for p in e.ipts])
    return out


def inputs(snap):
    return {k: v[:3] + v[4:] if k[0] == 'node' else v[:4] if k[0] == 'edge' else v for k, v in snap.items()}


def lam_values(p):
    return None if p is None else [np.array(x).tolist() for x in (p.A, p.B, p.D, p.E, p.h, p.scf_k13, p.scf_k23)]


def close(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, str):
        return a == b
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a-b) <= 1e-11*max(1e-300, np.abs(b).max())))


class World(object):
    def __init__(self, name):
        self.name = name
        self.state = [0, 0, 0]
        self.m = model_mesh(name, 0)
        self.n = len(self.m['pts'])
        self.T = len(self.m['tris'])
        self.mesh = ms.build(I, self.m)
        self.put()
        self.second = None

    def put(self):
        g, P, Q = self.state
        cm.assign(self.mesh, [lam_at(i, P, Q) for i in range(self.n)], [lam_at(i+1, P, Q) for i in range(self.T)])

    def do(self, op, ctx, seq, pos):
        mesh = self.mesh

        def judge(got, key, what):
            ok, want = _table[key]
            if not ctx.check(ok, 'a new mesh cannot be assembled: %s' % (want,)):
                return
            ctx.check(close(got, want), '%s after %s differs from a newly built mesh' % (what, '.'.join(seq[:pos])))
            ctx.trace()
        before = snapshot(mesh) if op[0] in 'SGIBK' else None
        if op[0] in 'KSG':
            judge(result(op, mesh, self.n), (self.name, tuple(self.state), op), NAMES[op])
        elif op == 'P':
            self.state[1] = 1 - self.state[1]
            self.put()
        elif op == 'Q':
            self.state[2] = 1 - self.state[2]
            for i in range(self.n):
                self.inplace(mesh.nodes[i+1].prop, lam_at(i, *self.state[1:]))
            for i in range(self.T):
                self.inplace(mesh.elements[i+1].prop, lam_at(i+1, *self.state[1:]))
        elif op == 'M':
            self.state[0] = (self.state[0] + 1) % 3
            for i, p in enumerate(model_mesh(self.name, self.state[0])['pts']):
                xyz = mesh.nodes[i+1].xyz
                if (i + pos) % 2:
                    xyz[0], xyz[1] = p
                else:
                    mesh.nodes[i+1].xyz = np.array([p[0], p[1], xyz[2]])
        elif op == 'B':
            if self.second is None:
                self.second = other_mesh(self.name)
            judge(other_run(self.name, *self.second), (self.name, 'B'), NAMES[op])
        elif op == 'I':
            judge(unrelated(), 'I', NAMES[op])
        elif op == 'X':
            for which, nodal in ((mesh.nodes, True), (mesh.elements, False)):
                keep, which[1].prop = which[1].prop, None
                try:
                    I.calc_k0(mesh, nodal)
                except ValueError:
                    pass
                else:
                    if nodal is False or mesh.nodes[1].trias:
                        ctx.fail('assembly with a missing property was not refused')
                which[1].prop = keep
        if before is not None:
            after = snapshot(mesh)
            if op[0] == 'K':        # node indices and edge domains are results of the constitutive assembly
                before, after = inputs(before), inputs(after)
            diff = [k for k in before if before[k] != after.get(k)] + [k for k in after if k not in before]
            ctx.check(not diff, '%s changed the mesh: %s' % (NAMES[op], diff[:3]))

    @staticmethod
    def inplace(p, q):
        for a in ('A', 'B', 'D', 'E'):
            getattr(p, a)[...] = getattr(q, a)
        p.h, p.scf_k13, p.scf_k23 = q.h, q.scf_k13, q.scf_k23


def run(unit, ctx):
    if unit.get('kind') in ('moves', 'params', 'nodes'):
        return dict(moves=moves, params=params, nodes=nodes)[unit['kind']](ctx, unit)
    if unit.get('kind') == 'edits':
        s, ps = unit['s'], unit['ps']
        return c24.living(ctx, ms.mapped(ms.POINTSETS[ps], ('skew', 'neg', 'wobble')[s % 3]), ms.maximal(ps)[s], s % 12, (ps, s), judge_all,
                          cm.ZS[s % 3])
    L = unit['depth']
    if unit.get('kind') == 'lives':
        for rest in itertools.product(range(len(LIVES)), repeat=L-1):
            seq = (unit['first'],) + rest
            if not ctx.case(dict(lives=seq)):
                continue
            ctx.state()
            for pos, k in enumerate(seq):
                ctx.trans()
                got = life(k)
                gc.collect()
                ok, want = _table['life', k]
                ctx.check(ok and close(got, want), 'mesh %s after meshes %s, already discarded, gives other matrices' % (k, seq[:pos]))
                ctx.trace()
            ctx.outcome(('lives', seq))
        return
    for rest in itertools.product(OPS, repeat=L-2):
        seq = tuple(unit['pre']) + rest
        if enabled(seq) is None:
            continue
        if not ctx.case(dict(mesh=unit['mesh'], seq=seq)):
            continue
        w = World(unit['mesh'])
        for pos, op in enumerate(seq):
            w.do(op, ctx, seq, pos)
            ctx.trans()
        ctx.state()
        ctx.outcome((unit['mesh'], seq))
