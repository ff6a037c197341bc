"""C14: concurrent work on different meshes does not interfere."""
import itertools
import os
import shutil
import tempfile

import numpy as np

from .. import common as cm, impl, meshspace as ms, pure, refmodel as rf, sched
from ..impl import I

LEVEL = 'model_checking'
RULE = ('two real threads run under a scheduler that switches them only at source lines of meshless; for every pair of '
        'operations all schedules with at most the stated number of preemptions are executed; every result must be that '
        'of the operation alone in a process of its own')
BOUNDS = {
    'quick': 'one preemption at every line of either thread, for all pairs of equal operations on different data, all '
             'pairs sharing one assembled mesh and 12 mixed pairs; two preemptions (first occurrences of every line) for '
             'the small operations; switches at every byte code for the small operations',
    'thorough': 'as quick with every mixed pair, two preemptions between the first occurrences of all lines '
                '(every fourth line for the constitutive assembly) for all pairs of equal operations',
}
ASSUMPTIONS = ['numpy, sympy and pyNastran calls are atomic steps', 'two threads']

MESHES = [('tri', 0, 'skew', 0.0, 0), ('tri', 0, 'neg', 1.0, 2)]
BIG = [('kite', -1, 'skew', 0.0, 2), ('kite', -1, 'neg', -1.0, 5)]
MESHOPS = ['k0n', 'k0e', 'cell', 'nosm', 'edge', 'kGn', 'kGe']
SHARED = ['cell', 'nosm', 'edge', 'kGn', 'kGe']
SMALLOPS = ['lag2', 'lag3', 'pow', 'sparse', 'dense', 'array', 'utils']
READOPS = ['read', 'file']
METH = dict(cell=0, nosm=1, edge=2)


def model(v, big):
    ps, s, mp, z, var = (BIG if big else MESHES)[v]
    return ms.desc(ps, ms.families(ps)[0][s], mp, z, var)


def ready(v, big, assembled):
    m = model(v, big)
    n = len(m['pts'])
    mesh = ms.build(I, m)
    cm.assign(mesh, [rf.generic(i % 3 + v) for i in range(n)], [rf.generic((i+1) % 3 + v) for i in range(len(m['tris']))])
    if assembled:
        I.calc_k0(mesh, True)
    return mesh, n


_tmp = []


def deckfile(v):
    if not _tmp:
        _tmp.append(tempfile.mkdtemp(prefix='mc_c14_'))
    p = os.path.join(_tmp[0], 'deck%d_%d.dat' % (v, os.getpid()))
    if not os.path.exists(p):
        m = model(v, True)
        L = ['SOL 101', 'CEND', 'BEGIN BULK', 'PSHELL,1,1,0.1', 'MAT1,1,7.+10,,0.3']
        L += ['GRID,%d,,%.5f,%.5f,%.2f' % (i+1+3*v, x, y, m['z']) for i, (x, y) in enumerate(m['pts'])]
        L += ['CTRIA3,%d,1,%d,%d,%d' % ((k+1,) + tuple(q+1+3*v for q in t)) for k, t in enumerate(m['tris'])]
        with open(p, 'w') as f:
            f.write('\n'.join(L + ['ENDDATA', '']))
    return p


def digest(mesh):
    out = []
    for i in sorted(mesh.nodes):
        nd = mesh.nodes[i]
        out.append((i, np.array(nd.xyz).tolist(), sorted(nd.trias), sorted((e.n1.nid, e.n2.nid) for e in nd.edges)))
    for i in sorted(mesh.elements):
        el = mesh.elements[i]
        out.append((i, [q.nid for q in el.nodes], sorted(sorted((e.n1.nid, e.n2.nid)) for e in el.edges)))
    for e in mesh.edges.values():
        out.append((sorted((e.n1.nid, e.n2.nid)), sorted(t.eid for t in e.trias)))
    return out


def geometry(mesh):
    return [(sorted(e.node_ids), e.Ac, np.array(e.sdomain).tolist(), [(p.nx, p.ny, p.le, p.f1, p.f2, p.f3, p.n1.nid, p.n2.nid, p.n3.nid)
                                                                      for p in e.ipts]) for e in mesh.edges.values()]


def matrix(v):
    import sympy
    x, y, z = sympy.symbols('x y z')
    if v == 0:
        return sympy.Matrix([[x**2*y, x+y, 0], [x+y, 3, x*z], [0, x*z, (x+y)**3]])
    return sympy.Matrix([[z**3, 0, y*z], [0, x**2*(y+z)**2, 7], [y*z, 7, (y+z)/x]])


def prepare(op, v, shared=None):
    """closure to be run under the scheduler; preparations are not scheduled"""
    if op in ('k0n', 'k0e'):
        mesh, n = ready(v, False, False)
        # the node indices come out of the assembly
        return lambda: (lambda K: (rf.from_impl(K, cm.index_of(mesh, n)), geometry(mesh)))(np.array(I.calc_k0(mesh, op == 'k0n')))
    if op in METH:
        mesh, n = shared or ready(v, False, True)
        S = np.zeros((5*n, 5*n))
        idx = cm.index_of(mesh, n)
        meth = cm.METHODS[METH[op]]
        opts = dict(alpha=.35, maxl_from_area=True) if v else {}
        return lambda: rf.from_impl(I.add_k0s(S, mesh, bool(v), meth, **opts), idx)
    if op in ('kGn', 'kGe'):
        mesh, n = shared or ready(v, False, True)
        idx = cm.index_of(mesh, n)
        d = rf.to_impl_vec(cm.dense_d(n, v), idx)
        return lambda: rf.from_impl(I.calc_kG(d, mesh, op == 'kGn'), idx)
    if op == 'read':
        m = model(v, False)
        return lambda: digest(ms.build(I, m))
    if op == 'file':
        p = deckfile(v)
        return lambda: digest(I.read_mesh(p))
    if op == 'lag2':
        f = np.arange(9.).reshape(3, 3)**(1.2+v)
        q = np.array([.3, 1.1]) + v
        return lambda: I.lag2(q, q*2, [0., 1.+v, 2.5], [-1.-v, 0., 2.], f)
    if op == 'lag3':
        f = np.arange(8.).reshape(2, 2, 2)**(1.2+v)
        q = np.array([.3, 1.1]) + v
        z = [0., 1.+v]
        return lambda: I.lag3(q, q*2, -q, z, z, z, f)
    if op == 'pow':
        t = ['a**3 + pow(b, 2)*c', '(x + y)**2*z**4 - pow(x*y, 3)'][v]
        return lambda: I.sy.pow2mul(t)
    if op == 'utils':
        x, y = ([0., 4., 4., 0.], [0., 0., 3., 3.]) if v == 0 else ([1., 6., 2.], [0., 1., 7.])
        w = np.array([3., 4., 12.]) if v == 0 else np.array([-1., 2., 2.])
        return lambda: [I.utils.area_of_polygon(x, y), I.utils.unitvec(w)]
    m = matrix(v)
    x, y = m.free_symbols and sorted(m.free_symbols, key=str)[:2]
    if op == 'sparse':
        return lambda: I.sy.mprint_as_sparse(m, 'K%d' % v, 's', print_file=False, is_symmetric=True, header='h%d' % v)
    if op == 'dense':
        return lambda: I.sy.mprint_as_dense(m, 'K%d' % v, print_file=False, dofpernode=2)
    if op == 'array':
        return lambda: I.sy.mprint_as_array(m, 'K%d' % v, print_file=False, use_cse=True)
    raise KeyError(op)


def alone(op, v, on_shared=False):
    return prepare(op, v, ready(0, False, True) if on_shared else None)()


def same(a, b):
    if isinstance(b, (list, tuple)) and not isinstance(b, str):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, str):
        return a == b
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-11*max(1.0, np.abs(b).max())))


_table = {}


def plan(tier):
    I.calc_k0
    jobs = {(op, v, False): (alone, (op, v)) for op in MESHOPS + SMALLOPS + READOPS for v in (0, 1)}
    jobs.update({(op, v, True): (alone, (op, v, True)) for op in SHARED for v in (0, 1)})
    if not _table:
        try:
            _table.update(pure.table(jobs))
        finally:
            cleanup()
    u = []
    PARTS = 8
    for op in MESHOPS + SMALLOPS + READOPS:
        parts = PARTS if op in MESHOPS else 1
        u += [dict(kind='one', a=op, b=op, shared=False, part=p, parts=parts) for p in range(parts)]
    for a, b in itertools.combinations_with_replacement(SHARED, 2):
        u += [dict(kind='one', a=a, b=b, shared=True, part=p, parts=4) for p in range(4)]
    mixed = list(itertools.combinations(MESHOPS + ['read', 'utils'], 2))
    if tier == 'quick':
        mixed = [('k0n', 'cell'), ('k0n', 'edge'), ('k0n', 'kGn'), ('k0e', 'kGe'), ('k0n', 'read'), ('cell', 'edge'), ('edge', 'kGn'),
                 ('k0e', 'utils'), ('nosm', 'kGe'), ('k0n', 'nosm'), ('lag2', 'lag3'), ('pow', 'array')]
    for a, b in mixed:
        u += [dict(kind='one', a=a, b=b, shared=False, part=p, parts=4) for p in range(4)]
    for op in SMALLOPS:
        u += [dict(kind='two', a=op, b=op, shared=False, part=p, parts=4, occ=1 if tier == 'quick' else 2) for p in range(4)]
    for op in ('utils', 'pow', 'lag2'):
        u.append(dict(kind='bytecode', a=op, b=op, shared=False, part=0, parts=1))
    if tier == 'thorough':
        for op in MESHOPS + READOPS:
            u += [dict(kind='two', a=op, b=op, shared=False, part=p, parts=32, occ=1, stride=4 if op[:2] == 'k0' else 1)
                  for p in range(32)]
        for a, b in (('cell', 'cell'), ('edge', 'edge'), ('kGn', 'kGn'), ('cell', 'kGn')):
            u += [dict(kind='two', a=a, b=b, shared=True, part=p, parts=16, occ=1, stride=2) for p in range(16)]
        for op in ('lag3', 'read'):
            u += [dict(kind='bytecode', a=op, b=op, shared=False, part=p, parts=16) for p in range(16)]
    # long units first
    u.sort(key=lambda q: -(q['a'] in MESHOPS + ['array']) - (q['kind'] == 'two'))
    return u


def cleanup():
    if _tmp:
        shutil.rmtree(_tmp.pop(), ignore_errors=True)


def points(trail, occ):
    """positions of the first occ occurrences of every line (None: all positions)"""
    if occ is None:
        return list(range(1, len(trail)))
    seen, out = {}, []
    for i, loc in enumerate(trail):
        seen[loc] = seen.get(loc, 0) + 1
        if seen[loc] <= occ and i:
            out.append(i)
    return out


def execute(ctx, unit, schedule, record=False):
    shared = ready(0, False, True) if unit['shared'] else None
    bodies = [prepare(unit['a'], 0, shared), prepare(unit['b'], 1, shared)]
    r = sched.Run(bodies, schedule, os.path.join(impl.REPO, 'meshless'), unit['kind'] == 'bytecode', record).go()
    ctx.trace()
    ctx.trans(r.switches)
    for t, op in enumerate((unit['a'], unit['b'])):
        ok, want = _table[op, t, unit['shared']]
        if not ctx.check(ok, '%s fails even alone: %s' % (op, want)):
            continue
        got = r.results[t]
        if got is None:
            ctx.fail('%s did not finish' % op)
        elif not got[0]:
            ctx.fail('%s raised %s when interleaved with %s' % (op, got[1], unit['b' if t == 0 else 'a']))
        else:
            ctx.check(same(got[1], want), '%s gives another result when interleaved with %s%s' % (
                op, unit['b' if t == 0 else 'a'], ' on the same mesh' if unit['shared'] else ''))
    return r


def run(unit, ctx):
    try:
        _run(unit, ctx)
    finally:
        cleanup()


def _run(unit, ctx):
    ctx.only, only = None, ctx.only
    ctx.cur = None
    base = execute(ctx, unit, [(0, None), (1, None)], record=True)
    ctx.only = only
    trails = base.trail
    if not ctx.check(trails[0] and trails[1], 'nothing was traced'):
        return
    if unit['kind'] in ('one', 'bytecode'):
        scheds = []
        for t in (0, 1):
            for k in points(trails[t], None):
                scheds.append([[t, k], [1-t, None], [t, None]])
    else:
        scheds = []
        for t in (0, 1):
            for k in points(trails[t], unit['occ'])[::unit.get('stride', 1)]:
                for j in points(trails[1-t], unit['occ'])[::unit.get('stride', 1)]:
                    scheds.append([[t, k], [1-t, j], [t, None], [1-t, None]])
    for q in range(unit['part'], len(scheds), unit['parts']):
        if ctx.case(dict(a=unit['a'], b=unit['b'], schedule=scheds[q])):
            ctx.state()
            r = execute(ctx, unit, [tuple(s) for s in scheds[q]])
            if r.free:
                ctx.count('uncontrolled')
            ctx.outcome((unit['a'], unit['b'], unit['shared'], unit['kind'], scheds[q]))
