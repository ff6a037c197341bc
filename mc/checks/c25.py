"""C25: the derivation scripts print the element code the package runs."""
import glob
import os
import re
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from .. import common as cm, impl, meshspace as ms, refmodel as rf
from ..impl import I

LEVEL = 'model_checking'
RULE = ('the derivation scripts of the working tree are run in a scratch directory; the statements they print are '
        'executed for every edge or triangle of every mesh state with independently computed geometry, and the '
        'sums are compared with the definition and with what the package assembles for the same mesh; the print '
        'files committed next to the scripts are executed on the same states and must give the same values')
BOUNDS = {
    'quick': 'the 5 scripts, all printed matrices x all states of 7 point sets (3-5 points), maps and orders rotating, x both '
             'property sources; 2x3 lattice; large meshes',
    'thorough': 'all states of 7 point sets x 9 maps; 2x3 lattice and hexagon with centre; large meshes',
}
ASSUMPTIONS = ['the printed statements are executed as Python with dof = 5 and the names of the README',
               'KF-B3: the package is compared with the printed interior-edge code and, failing that, with the exact '
               'known defect']

PLATE = 'theory/espim/2D/plate/FSDT/'
SCRIPTS = {
    'cell': (PLATE + 'transverse_shear_cell_based', ['k0', 'k0s', 'kG']),
    'nosm': (PLATE + 'transverse_shear_cell_based_no_smoothing', ['k0', 'k0s']),
    'edge': (PLATE + 'transverse_shear_edge_based', ['k0', 'k0s_interior_edge', 'k0s_boundary_edge']),
    'sfem': ('theory/sfem', ['k0']),
    'membrane': ('theory/espim/2D/membrane', ['k0']),
}
SHEAR = {'cell': 'cell-based', 'nosm': 'cell-based-no-smoothing', 'edge': 'edge-based'}

_made = {}       # script -> (return code, stderr, {name: text})


def generate():
    """Run all scripts of the tree under test, in scratch directories."""
    if _made:
        return
    top = tempfile.mkdtemp(prefix='mc_theory_')
    procs = {}
    env = dict(os.environ, PYTHONPATH=impl.REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               PYTHONPYCACHEPREFIX=os.path.join(top, 'pyc'))
    for s, (d, names) in SCRIPTS.items():
        cwd = os.path.join(top, s)
        os.mkdir(cwd)
        out = open(os.path.join(cwd, 'stdout'), 'w')
        procs[s] = subprocess.Popen([sys.executable, '-W', 'ignore', os.path.join(impl.REPO, d, 'stiffmatrices.py')],
                                    cwd=cwd, env=env, stdout=out, stderr=subprocess.PIPE)
    for s, p in procs.items():
        try:
            err = p.communicate(timeout=300)[1].decode(errors='replace')
        except subprocess.TimeoutExpired:
            p.kill()
            err = 'no end within 300 s'
        files = {}
        for f in glob.glob(os.path.join(top, s, 'print_*.txt')):
            files[os.path.basename(f)[len('print_'):-4]] = open(f).read()
        _made[s] = (p.returncode, err, files)
    shutil.rmtree(top, ignore_errors=True)


def plan(tier):
    generate()
    u = [dict(kind='scripts')]
    if tier == 'quick':
        for ps in cm.SMALL:
            u += cm.cover_units(ps, 12)
        u += cm.cover_units('lat32', 24)
        u += [dict(kind='big', names=[n]) for n in ('fan', 'ring', 'grid44r')]
    else:
        u += cm.full_units(cm.SMALL, cm.MAPNAMES, size=12)
        u += cm.cover_units('lat32', 24) + cm.cover_units('hexa', 24)
        u += [dict(kind='big', names=[n]) for n in sorted(cm.BIG)]
    return u


# ------------------------------------------------- executing printed code

_stmt = re.compile(r'^\w+\[.*\] *\+= *\S')
_codes = {}


def code(text, name):
    """A function kernel(K, variables) made of the printed statements."""
    key = (text, name)
    if key not in _codes:
        lines = [l.strip() for l in text.splitlines() if l.strip() and not l.strip().startswith('#')]
        src = '\n'.join(lines)
        _codes[key] = (compile(src, '<printed %s>' % name, 'exec'), len(lines),
                       all(_stmt.match(l) for l in lines))
    return _codes[key]


def execute(text, name, K, var):
    ns = dict(var)
    ns[name] = K
    ns['dof'] = 5
    ns['__builtins__'] = {}
    exec(code(text, name)[0], ns)


# -------------------------------------------------- variables of an element

def domain_vars(g, e):
    """Names of the edge domain: Ac, i1..i4, and le, nx, ny, f of each side."""
    i, j = e
    ts = g.edges[e]
    o = [[v for v in g.tris[t] if v not in e][0] for t in ts]
    if g.signed(i, j, o[0]) < 0:
        i, j = j, i
    m = [g.cent[t] for t in ts]
    pi, pj = g.xy[i], g.xy[j]
    nodes = [i, j] + o + ([i] if len(ts) == 1 else [])
    if len(ts) == 1:
        sides = [(pi, pj, {0: .5, 1: .5}), (pj, m[0], {0: 1/6, 1: 2/3, 2: 1/6}), (m[0], pi, {0: 2/3, 1: 1/6, 2: 1/6})]
    else:
        sides = [(pi, m[1], {0: 2/3, 1: 1/6, 3: 1/6}), (m[1], pj, {0: 1/6, 1: 2/3, 3: 1/6}),
                 (pj, m[0], {0: 1/6, 1: 2/3, 2: 1/6}), (m[0], pi, {0: 2/3, 1: 1/6, 2: 1/6})]
    v = dict(Ac=sum(g.area[t] for t in ts)/3)
    for k in range(4):
        v['i%d' % (k+1)] = nodes[k]
        if k < len(sides):
            p, q, f = sides[k]
            le = float(np.hypot(*(q-p)))
            v.update({'le%d' % (k+1): le, 'nx%d' % (k+1): float(q[1]-p[1])/le, 'ny%d' % (k+1): float(p[0]-q[0])/le})
        else:
            f = {}
            v.update({'le%d' % (k+1): 0.0, 'nx%d' % (k+1): 0.0, 'ny%d' % (k+1): 0.0})
        for q in range(4):
            v['f%d%d' % (k+1, q+1)] = f.get(q, 0.0)
    return v


def abd_vars(p):
    v = {}
    for blk in 'ABD':
        M = np.asarray(getattr(p, blk))
        for r, c, s in ((0, 0, '11'), (0, 1, '12'), (0, 2, '16'), (1, 1, '22'), (1, 2, '26'), (2, 2, '66')):
            v[blk+s] = float(M[r, c])
    return v


def sub(k, p1, p2, p3, swapped=False):
    """a, b, c, d of the sub-triangle p1-p2-p3."""
    a, b = p2-p1
    c, d = p3-p1
    if swapped:
        c, d = d, c
    return {'a%d' % k: float(a), 'b%d' % k: float(b), 'c%d' % k: float(c), 'd%d' % k: float(d)}


def e_vars(C):
    return dict(E44=float(C[0, 0]), E45=float(C[0, 1]), E55=float(C[1, 1]))


def shear_c(p, l, alpha=0.08):
    f = 1/(1 + alpha*l**2/p.h**2)
    return f*np.array([[p.scf_k13*p.E[0, 0], 0], [0, p.scf_k23*p.E[1, 1]]])


class Sum(object):
    """Sum of printed code, the definition, and the magnitude of its terms."""

    def __init__(self, n):
        self.P, self.Q = np.zeros((5*n, 5*n)), np.zeros((5*n, 5*n))
        self.R, self.A = np.zeros((5*n, 5*n)), np.zeros((5*n, 5*n))
        self.n = n

    def add(self, text, committed, name, var):
        execute(text, name, self.P, var)
        execute(committed or text, name, self.Q, var)

    def shear(self, nodes, parts, C, w):
        cols = {nd: q for q, nd in enumerate(nodes)}
        Bm, Ba = np.zeros((2, 3*len(nodes))), np.zeros((2, 3*len(nodes)))
        for Bs, verts, f in parts:
            rf._put(Bm, cols, Bs, verts, f)
            rf._put(Ba, cols, np.abs(Bs), verts, f)
        rf._scatter3(self.R, self.A, nodes, Bm, Ba, C, w)


E45 = np.array([[0, .23], [.23, 0]])


def shear_sum(ctx, s, g, props, nodal, gen, com, coupled):
    """Printed shear code summed over the mesh, next to the definition.
    coupled: with an arbitrary E45 (the package has none outside interior edges)."""
    S = Sum(g.n)
    if s == 'edge':
        for e, ts in g.edges.items():
            i, j = e
            o = [[v for v in g.tris[t] if v not in e][0] for t in ts]
            if g.signed(i, j, o[0]) < 0:
                i, j = j, i
            p = g.edge_prop(e, props, nodal)
            l = max([np.hypot(*(g.cent[t]-g.xy[v])) for t in ts for v in e] + [g.length(*e)])
            C = shear_c(p, l) + (E45*p.E[0, 0] if coupled else 0)
            Ac = sum(g.area[t] for t in ts)/3
            xi, xj = g.xy[i], g.xy[j]
            m1 = g.cent[ts[0]]
            v = dict(Ac=Ac, i1=i, i2=j, i3=o[0], Ac1=g.area[ts[0]]/3, **e_vars(C))
            v.update(sub(1, m1, xi, xj))
            mid1 = {q: 1/3 for q in g.tris[ts[0]]}
            parts = [(rf.dsg(m1, xi, xj), [mid1, {i: 1}, {j: 1}], g.area[ts[0]]/3/Ac)]
            nodes = (i, j, o[0])
            name = 'k0s_boundary_edge'
            if len(ts) == 2:
                m2 = g.cent[ts[1]]
                v.update(i4=o[1], Ac2=g.area[ts[1]]/3, **sub(2, xi, m2, xj))
                mid2 = {q: 1/3 for q in g.tris[ts[1]]}
                parts.append((rf.dsg(xi, m2, xj), [{i: 1}, mid2, {j: 1}], g.area[ts[1]]/3/Ac))
                nodes = (i, j, o[0], o[1])
                name = 'k0s_interior_edge'
            S.add(gen[name], com.get(name), name, v)
            S.shear(nodes, parts, C, Ac)
        return S
    for t in range(len(g.tris)):
        a, b, c = g.ccw(t)
        p = g.tri_prop(t, props, nodal)
        l = max(g.length(a, b), g.length(b, c), g.length(c, a))
        C = shear_c(p, l) + (E45*p.E[0, 0] if coupled else 0)
        A = g.area[t]
        xa, xb, xc = g.xy[a], g.xy[b], g.xy[c]
        v = dict(Ac=A, i1=a, i2=b, i3=c, **e_vars(C))
        if s == 'nosm':
            v.update(sub(1, xa, xb, xc))
            parts = [(rf.dsg(xa, xb, xc), [{a: 1}, {b: 1}, {c: 1}], 1.0)]
        else:
            mid = {a: 1/3, b: 1/3, c: 1/3}
            parts = []
            for k, (i, j) in enumerate(((a, b), (b, c), (c, a))):
                v.update(sub(k+1, g.cent[t], g.xy[i], g.xy[j]))
                v['Ac%d' % (k+1)] = A/3
                parts.append((rf.dsg(g.cent[t], g.xy[i], g.xy[j]), [mid, {i: 1}, {j: 1}], 1/3))
        S.add(gen['k0s'], com.get('k0s'), 'k0s', v)
        S.shear((a, b, c), parts, C, A)
    return S


def domain_sum(g, props, nodal, text, com, name, d=None):
    S = Sum(g.n)
    for e in g.edges:
        p = g.edge_prop(e, props, nodal)
        v = domain_vars(g, e)
        if name == 'k0':
            v.update(abd_vars(p))
        else:
            _, gr = g.domain(e)
            em, eb = np.zeros(3), np.zeros(3)
            for nd, (gx, gy) in gr.items():
                u, w, _, px, py = d[5*nd:5*nd+5]
                em += [gx*u, gy*w, gy*u+gx*w]
                eb += [gx*px, gy*py, gy*px+gx*py]
            N = np.asarray(p.A).dot(em) + np.asarray(p.B).dot(eb)
            v.update(Nxx=float(N[0]), Nyy=float(N[1]), Nxy=float(N[2]))
        S.add(text, com, name, v)
    S.R, S.A = rf.k0(g, props, nodal) if name == 'k0' else rf.kG(g, props, nodal, d)
    return S


def sfem_sum(g, props, nodal, text, com):
    """Smoothed FEM triangle: linear membrane and bending, and the shear gaps
    of the sub-triangles (mid, 2, 3), (1, mid, 3), (1, 2, mid)."""
    S = Sum(g.n)
    for t in range(len(g.tris)):
        a, b, c = g.ccw(t)
        p = g.tri_prop(t, props, nodal)
        A = g.area[t]
        xa, xb, xc, xm = g.xy[a], g.xy[b], g.xy[c], g.cent[t]
        C = shear_c(p, 0.0) + E45*p.E[0, 0]
        v = dict(Ac=A, Ac1=A/3, Ac2=A/3, Ac3=A/3, i1=a, i2=b, i3=c, **e_vars(C))
        v.update(abd_vars(p))
        v.update(sub(1, xm, xb, xc, True))
        v.update(sub(2, xa, xm, xc, True))
        v.update(sub(3, xa, xb, xm, True))
        S.add(text, com, 'k0', v)
        mid = {a: 1/3, b: 1/3, c: 1/3}
        S.shear((a, b, c), [(rf.dsg(xm, xb, xc), [mid, {b: 1}, {c: 1}], 1/3),
                            (rf.dsg(xa, xm, xc), [{a: 1}, mid, {c: 1}], 1/3),
                            (rf.dsg(xa, xb, xm), [{a: 1}, {b: 1}, mid], 1/3)], C, A)
        Bm, Bs = np.zeros((6, 15)), np.zeros((6, 15))
        s = max(np.abs(x).max() for x in g.grad[t].values())
        for q, nd in enumerate((a, b, c)):
            gx, gy = g.grad[t][nd]
            for r, col, val in ((0, 0, gx), (1, 1, gy), (2, 0, gy), (2, 1, gx),
                                (3, 3, gx), (4, 4, gy), (5, 3, gy), (5, 4, gx)):
                Bm[r, 5*q+col] = val
                Bs[r, 5*q+col] = 3*s
        CC = np.block([[p.A, p.B], [p.B, p.D]])
        rf._scatter(S.R, S.A, (a, b, c), Bm, CC, A)
        # cancellation between the three sub-triangles
        dofs = np.concatenate([np.arange(5) + 5*nd for nd in (a, b, c)])
        S.A[np.ix_(dofs, dofs)] += A*Bs.T.dot(np.abs(CC)).dot(Bs)
    return S


# ------------------------------------------------------------------ checks

_com = {}


def committed(s):
    """The print files committed next to the script: name -> text."""
    if s not in _com:
        d, names = SCRIPTS[s]
        out = {}
        for nm in names:
            f = os.path.join(impl.REPO, d, 'print_%s.txt' % nm)
            if os.path.exists(f):
                out[nm] = open(f).read()
        _com[s] = out
    return _com[s]


def judge(ctx, s, what, S, K=None, alt=None):
    ctx.trace()
    tol = 4*rf.RTOL
    ctx.check(rf.close(S.P, S.R, S.A, tol), '%s: the printed %s is not the definition: %s' % (
        s, what, rf.worst(S.P, S.R, S.A)))
    ctx.check(rf.close(S.Q, S.R, S.A, tol), '%s: the committed %s is not what the script derives: %s' % (
        s, what, rf.worst(S.Q, S.R, S.A)))
    if K is not None:
        if alt is not None and not rf.close(K, S.P, S.A, tol) and rf.close(K, alt[0], np.maximum(alt[1], S.A), tol):
            ctx.known_or_fail('KF-B3', 'edge-based shear of the package is not the printed code: '
                              + rf.worst(K, S.P, S.A))
            return
        ctx.check(rf.close(K, S.P, S.A, tol), '%s: the package does not assemble the printed %s: %s' % (
            s, what, rf.worst(K, S.P, S.A)))


def verify(ctx, m, k, nodal):
    n = len(m['pts'])
    g = rf.Geo(m)
    props = cm.hetero(n if nodal else len(m['tris']), k)
    mesh = ms.build(I, m)
    cm.assign(mesh, props if nodal else None, None if nodal else props)
    d = cm.dense_d(n, k)
    if any(not _made[s][2].get(nm) for s in SCRIPTS for nm in SCRIPTS[s][1]):
        ctx.check(False, 'scripts did not print everything')
        return
    K = cm.assemble(mesh, n, nodal, d)
    for s in SCRIPTS:
        files, com = _made[s][2], committed(s)
        if s == 'sfem':
            judge(ctx, s, 'k0', sfem_sum(g, props, nodal, files['k0'], com.get('k0')))
            continue
        if s == 'membrane':
            # the in-plane part of the constitutive matrix
            S = domain_sum(g, props, nodal, files['k0'], com.get('k0'), 'k0')
            keep = np.arange(5*n) % 5 < 2
            keep = np.outer(keep, keep)
            S.R = S.R*keep
            judge(ctx, s, 'k0', S, K['k0']*keep)
            continue
        judge(ctx, s, 'k0', domain_sum(g, props, nodal, files['k0'], com.get('k0'), 'k0'), K['k0'])
        if s == 'cell':
            judge(ctx, s, 'kG', domain_sum(g, props, nodal, files['kG'], com.get('kG'), 'kG', d), K['kG'])
        alt = rf.k0s(g, props, nodal, 'edge-based', defect_B=True) if s == 'edge' else None
        judge(ctx, s, 'shear code', shear_sum(ctx, s, g, props, nodal, files, com, False), K[SHEAR[s]], alt)
        judge(ctx, s, 'shear code with E45', shear_sum(ctx, s, g, props, nodal, files, com, True))
    ctx.outcome((len(m['tris']), len(g.edges), np.round(np.diag(K['k0'])/max(np.abs(K['k0']).max(), 1e-300), 5).tolist()))


def scripts(ctx):
    for s, (d, names) in SCRIPTS.items():
        if not ctx.case(dict(script=s)):
            continue
        ctx.state()
        rc, err, files = _made[s]
        ctx.check(rc == 0, '%s: the script fails: %s' % (s, err[-600:]))
        for nm in names:
            t = files.get(nm)
            if not ctx.check(bool(t), '%s: print_%s.txt is not written' % (s, nm)):
                continue
            try:
                _, num, ok = code(t, nm)
            except SyntaxError as e:
                ctx.check(False, '%s: print_%s.txt is not code: %r' % (s, nm, e))
                continue
            ctx.check(ok, '%s: print_%s.txt holds something else than additions to entries' % (s, nm))
            ctx.check('%s_num=%d' % (nm, num) in t, '%s: print_%s.txt announces another number of entries than %d'
                      % (s, nm, num))
            ctx.outcome((s, nm, num))


def run(unit, ctx):
    generate()
    if unit['kind'] == 'scripts':
        scripts(ctx)
    elif unit['kind'] in ('full', 'cover'):
        for k, m in cm.states(unit, ctx):
            for nodal in ((True, False) if len(m['tris']) < 3 else (bool(k % 2),)):
                if ctx.case(dict(m=m, nodal=nodal, k=k)):
                    verify(ctx, m, k, nodal)
    else:
        for nm, m in cm.big_meshes(unit['names']):
            for nodal in (True, False):
                if ctx.case(dict(mesh=nm, nodal=nodal)):
                    ctx.state()
                    verify(ctx, m, 2, nodal)
