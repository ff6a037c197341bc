"""Behaviour-preserving rewrites of meshless on which every check must stay quiet.

usage: refactor.py [-c C01,C02] [bundle ...]

Each bundle is applied to a scratch copy of /repo, the stable tests are run
there, and then the quick checks against it."""
import os, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import tests_pass

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K0 = 'espim/plate2d_calc_k0.py'
KG = 'espim/plate2d_calc_kG.py'
CB = 'espim/plate2d_add_k0s_cell_based.py'
NS = 'espim/plate2d_add_k0s_cell_based_no_smoothing.py'
EB = 'espim/plate2d_add_k0s_edge_based.py'
AD = 'espim/plate2d_add_k0s.py'
RM = 'espim/read_mesh.py'
CL = 'espim/classes.py'
UT = 'utils.py'
IN = 'interpolate.py'
SY = 'dev/sympytools.py'


class Tree(object):
    def __init__(self, root):
        self.root = root

    def get(self, f):
        return open(os.path.join(self.root, 'meshless', f)).read()

    def put(self, f, s):
        compile(s, f, 'exec')
        open(os.path.join(self.root, 'meshless', f), 'w').write(s)

    def sub(self, f, *pairs):
        s = self.get(f)
        for a, b in pairs:
            assert a in s, (f, a)
            s = s.replace(a, b)
        self.put(f, s)

    def block(self, f, first, last, new, nth=0):
        """replace the lines from the one containing first to the one containing last (inclusive)"""
        L = self.get(f).split('\n')
        i = [n for n, l in enumerate(L) if first in l][nth]
        j = max(n for n, l in enumerate(L) if last in l and n >= i) if nth == 0 else [n for n, l in enumerate(L) if last in l and n >= i][0]
        L[i:j+1] = new.strip('\n').split('\n')
        self.put(f, '\n'.join(L))


def light(t):
    """helpers extracted, loops rewritten, statements moved"""
    t.sub(UT, ("""    area = 0.0
    for i in range(-1, len(x)-1):
        area += x[i] * (y[i+1] - y[i-1])
    return abs(area) / 2.0
""", """    n = len(x)
    twice = sum(x[k]*y[(k + 1) % n] - x[(k + 1) % n]*y[k] for k in range(n))
    return abs(0.5*twice)
"""), ("    return vector / np.linalg.norm(vector)", "    length = np.sqrt(np.dot(vector, vector))\n    return vector*(1./length)"),
          ("    return elem.get_node_positions().mean(axis=0)", "    p1, p2, p3 = elem.get_node_positions()\n    return (p1 + p2 + p3)/3"))
    t.sub(K0, ("            indices.append(-1)", "            indices.append(0)"),
          ("""    nodes_xyz = np.array([n.xyz for n in nodes])
    index_ref_point = nodes_xyz.min(axis=0)

    index_dist = ((nodes_xyz - index_ref_point)**2).sum(axis=-1)
    sort_ind = np.arange(len(index_dist))
    for i, node in enumerate(np.array(list(nodes))[sort_ind]):
        node.index = i
""", """    for i, node in enumerate(nodes):
        node.index = i
"""), ("        f1 = [0, 0, 0, 0]\n        f2 = [0, 0, 0, 0]\n        f3 = [0, 0, 0, 0]\n        f4 = [0, 0, 0, 0]\n",
       "        f1, f2, f3, f4 = np.zeros((4, 4))\n"),
          ("""    for edge in edges:
        if prop_from_node:
            for node in edge.nodes:
                if node.prop is None:
                    raise ValueError('Property missing for node: %s' %
                            str(node.xyz))
        else:
            for tria in edge.trias:
                if tria.prop is None:
                    raise ValueError('Property missing for tria: %s' % str(tria.nodes))
""", """    check_props(edges, prop_from_node)
"""), ("def calc_k0(mesh", '''def check_props(edges, prop_from_node):
    owners = [o for edge in edges for o in (edge.nodes if prop_from_node else edge.trias)]
    missing = next((o for o in owners if o.prop is None), None)
    if missing is not None:
        raise ValueError('Property missing: %s' % (missing,))


def side(p, q):
    """Outward normal and length of the segment from q to p"""
    v = p - q
    n = unitvec(np.cross(v, ZGLOBAL))
    return n[0], n[1], n[2], np.linalg.norm(v)


def calc_k0(mesh'''),
          ("""        tmpvec = (node1.xyz - mid1)
        nx, ny, nz = unitvec(np.cross(tmpvec, ZGLOBAL))
        sdomain.append(node1.xyz)
        sdomain.append(mid1)
        le = np.sqrt(((node1.xyz - mid1)**2).sum())
""", """        nx, ny, nz, le = side(node1.xyz, mid1)
        sdomain.append(node1.xyz)
        sdomain.append(mid1)
"""), ("""        tmpvec = (mid1 - node2.xyz)
        nx, ny, nz = unitvec(np.cross(tmpvec, ZGLOBAL))
        sdomain.append(node2.xyz)
        le = np.sqrt(((mid1 - node2.xyz)**2).sum())
""", """        sdomain.append(node2.xyz)
        nx, ny, nz, le = side(mid1, node2.xyz)
"""))
    t.sub(IN, ("import numpy as np\n", '''import numpy as np


def _basis(nodes, k, x):
    value = 1
    for other in list(range(k)) + list(range(k + 1, len(nodes))):
        gap = nodes[k] - nodes[other]
        if gap != 0:
            value = value*((x - nodes[other])/gap)
    return value
'''), ("""        xm = x_nodes[m]
        fx = 1
        for i, xi in enumerate(x_nodes):
            if i != m and (xm - xi) != 0:
               fx *= (x - xi)/(xm - xi)
""", "        fx = _basis(x_nodes, m, x)\n"), ("""            yn = y_nodes[n]
            fy = 1
            for j, yj in enumerate(y_nodes):
                if j != n and (yn - yj) != 0:
                   fy *= (y - yj)/(yn - yj)
""", "            fy = _basis(y_nodes, n, y)\n"))
    t.sub(AD, ("""    if method == 'cell-based':
        return add_k0s_cell(k0, mesh, prop_from_node, alpha=alpha, maxl_from_area=maxl_from_area)
    elif method == 'cell-based-no-smoothing':
        return add_k0s_cell_no_smoothing(k0, mesh, prop_from_node, alpha=alpha, maxl_from_area=maxl_from_area)
    elif method == 'edge-based':
        return add_k0s_edge(k0, mesh, prop_from_node, alpha=alpha, maxl_from_area=maxl_from_area)
    else:
        raise ValueError('Invalid method')
""", """    methods = {'cell-based': add_k0s_cell, 'edge-based': add_k0s_edge,
               'cell-based-no-smoothing': add_k0s_cell_no_smoothing}
    if method not in methods:
        raise ValueError('Invalid method %r' % (method,))
    return methods[method](k0, mesh, prop_from_node, alpha, maxl_from_area)
"""))
    for f in (CB, NS):
        t.sub(f, ("""            pn1 = n1.prop
            pn2 = n2.prop
            pn3 = n3.prop
            k13 = 1/3*pn1.scf_k13 + 1/3*pn2.scf_k13 + 1/3*pn3.scf_k13
            k23 = 1/3*pn1.scf_k23 + 1/3*pn2.scf_k23 + 1/3*pn3.scf_k23
            E = 1/3*pn1.E + 1/3*pn2.E + 1/3*pn3.E
            h = 1/3*pn1.h + 1/3*pn2.h + 1/3*pn3.h
""", """            props = [n.prop for n in tria.nodes]
            k13 = np.mean([p.scf_k13 for p in props])
            k23 = np.mean([p.scf_k23 for p in props])
            E = sum(p.E for p in props)/3
            h = sum(p.h for p in props)/3
"""), ("max([np.sum((e.n1.xyz - e.n2.xyz)**2)**0.5 for e in tria.edges])",
       "max(np.linalg.norm(n.xyz - m.xyz) for n, m in ((n1, n2), (n2, n3), (n3, n1)))"),
              ("        factor = alpha*maxl**2/h**2\n        E44 = 1 / (1 + factor) * E44\n", "        E44 *= h*h/(h*h + alpha*maxl*maxl)\n"),
              ("        E55 = 1 / (1 + factor) * E55\n", "        E55 *= h*h/(h*h + alpha*maxl*maxl)\n"))
    # readers share the connection code
    s = t.get(RM)
    a = s.index("    edges = {}\n    edges_ids", s.index('def read_delaunay'))
    tail = s[a:s.index("    mesh.edges = edges", a)]
    s = s[:a] + "    edges = connect(mesh, trias)\n" + s[a+len(tail):]
    b = s.index("    edges = {}\n    edges_ids")
    c = s.index("    mesh.edges = edges")
    s = s[:b] + "    for tria in trias:\n        tria.nodes = tria.nodes_ref\n    edges = connect(mesh, trias)\n" + s[c:]
    s = s.replace("def read_mesh(", "def connect(mesh, trias):\n" + tail.rstrip() + "\n    return edges\n\n\ndef read_mesh(")
    t.put(RM, s)


VEC_K0 = '''
        nodes4 = [edge.n1, edge.n2, edge.othernode1] + ([edge.othernode2] if tria2 is not None else [])
        C = np.zeros((6, 6))
        C[:3, :3], C[:3, 3:], C[3:, :3], C[3:, 3:] = A, B, B, D
        Bm = np.zeros((6, 5*len(nodes4)))
        for k, node in enumerate(nodes4):
            bx = by = 0.
            for ipt in ipts:
                f = sum(w for w, nd in ((ipt.f1, ipt.n1), (ipt.f2, ipt.n2), (ipt.f3, ipt.n3)) if nd is node)
                bx += f*ipt.le*ipt.nx/Ac
                by += f*ipt.le*ipt.ny/Ac
            Bm[[0, 2], 5*k] = bx, by
            Bm[[1, 2], 5*k+1] = by, bx
            Bm[[3, 5], 5*k+3] = bx, by
            Bm[[4, 5], 5*k+4] = by, bx
        dofs = np.concatenate([node.index*dof + np.arange(5) for node in nodes4])
        k0[np.ix_(dofs, dofs)] += Ac*Bm.T.dot(C).dot(Bm)
'''
VEC_KG = '''
        F = np.array([f1, f2, f3, f4])
        les, nx, ny = (np.array(v) for v in ((le1, le2, le3, le4), (nx1, nx2, nx3, nx4), (ny1, ny2, ny3, ny4)))
        G = np.vstack([(les*nx).dot(F), (les*ny).dot(F)])/Ac
        U = np.array([d[i*dof:i*dof+5] for i in (i1, i2, i3, i4)])
        gu = G.dot(U)
        em = np.array([gu[0, 0], gu[1, 1], gu[1, 0] + gu[0, 1]])
        eb = np.array([gu[0, 3], gu[1, 4], gu[1, 3] + gu[0, 4]])
        Nxx, Nyy, Nxy = A.dot(em) + B.dot(eb)
        S = Ac*G.T.dot(np.array([[Nxx, Nxy], [Nxy, Nyy]])).dot(G)
        for p, ip in enumerate((i1, i2, i3, i4)):
            for q, iq in enumerate((i1, i2, i3, i4)):
                kG[ip*dof+2, iq*dof+2] += S[p, q]
'''
VEC_NS = '''
        Bs = np.zeros((2, 15))
        Bs[0] = [b1 - d1, Ac, 0, d1, a1*d1/2, b1*d1/2, -b1, -b1*c1/2, -b1*d1/2] + [0]*6
        Bs[1, :9] = [c1 - a1, 0, Ac, -c1, -a1*c1/2, -b1*c1/2, a1, a1*c1/2, a1*d1/2]
        Bs = Bs[:, :9]/(2*Ac)
        S = Ac*Bs.T.dot(np.diag([E44, E55])).dot(Bs)
        rows = [i*dof + q for i in (i1, i2, i3) for q in (2, 3, 4)]
        for p in range(9):
            for q in range(9):
                k0[rows[p], rows[q]] += S[p, q]
'''


def heavy(t):
    """matrix products instead of unrolled expressions"""
    t.block(K0, '        indices = set()', "k0[i4*dof+4, i4*dof+4] +=", '''
@@PROPS@@
''' if False else keep_props(t) + VEC_K0.strip('\n'))
    t.block(KG, '        d1 = d[i1*dof: i1*dof+5]', 'kG[i4*dof+2, i4*dof+2] +=', VEC_KG)
    t.block(NS, 'k0[i1*dof+2, i1*dof+2] +=', 'k0[i3*dof+4, i3*dof+4] +=', VEC_NS)
    t.sub(K0, ("np.dot(np.cross((mid1 - node2.xyz), (node1.xyz - node2.xyz)), ZGLOBAL) < 0",
               "np.cross(edge.othernode1.xyz[:2] - node1.xyz[:2], node2.xyz[:2] - node1.xyz[:2]) > 0"))
    t.sub(EB, ("np.dot(np.cross((n2.xyz - n1.xyz), (mid1 - n1.xyz)), ZGLOBAL) < 0",
               "np.linalg.det(np.array([n2.xyz - n1.xyz, mid1 - n1.xyz, ZGLOBAL])) < 0"))
    t.sub(CB, ("Ac = tria.get_area()", "Ac = area_of_polygon([n.xyz[0] for n in tria.nodes], [n.xyz[1] for n in tria.nodes])"))
    t.sub(SY, ("        if is_symmetric and i > j:\n            continue\n", "        if is_symmetric and j < i:\n            continue\n"),
          ("    num = len([None for (i, j), v in np.ndenumerate(m) if v])\n", "    num = sum(1 for v in m if v)\n"))


def keep_props(t):
    s = t.get(K0)
    a = s.index("        if prop_from_node:\n            pn1 = edge.n1.prop")
    b = s.index("        A11 = A[0, 0]")
    return s[a:b].rstrip() + '\n\n'


def order(t):
    """other processing orders: elements and edges backwards, symmetric halves mirrored, operands swapped"""
    for f in (K0, KG):
        s = t.get(f)
        nm = 'k0' if f == K0 else 'kG'
        L = s.split('\n')
        out = []
        for l in L:
            m = re.match(r'        %s\[i(\d)\*dof\+(\d), i(\d)\*dof\+(\d)\] \+= ' % nm, l)
            if m and (int(m.group(1)), int(m.group(2))) > (int(m.group(3)), int(m.group(4))):
                continue
            if m:
                l = l.replace('%s[' % nm, 'up[').replace('*dof', '*5')
                for q in '1234':
                    l = re.sub(r'\bi%s\*5' % q, '%d*5' % (int(q)-1), l)
                l = l.replace('+=', '=')
            out.append(l)
        s = '\n'.join(out)
        first = s.index('        up[')
        s = s[:first] + '        up = np.zeros((20, 20))\n' + s[first:]
        last = s.rindex('        up[')
        end = s.index('\n', last) + 1
        s = s[:end] + '''        full = up + np.triu(up, 1).T
        for p, ip in enumerate(indices):
            for q, iq in enumerate(indices):
                %s[ip*dof:ip*dof+5 or None, iq*dof:iq*dof+5 or None] += full[5*p:5*p+5, 5*q:5*q+5]
''' % nm + s[end:]
        s = s.replace('    for edge in mesh.edges.values():\n', '    for edge in reversed(list(mesh.edges.values())):\n')
        t.put(f, s)
    t.sub(CB, ("for tria in mesh.elements.values():", "for _, tria in sorted(mesh.elements.items(), reverse=True):"))
    t.sub(EB, ("    for edge in mesh.edges.values():\n", "    for key in sorted(mesh.edges):\n        edge = mesh.edges[key]\n"),
          ("            boundary_edge(k0, edge, n1, n2, prop_from_node, alpha=alpha, maxl_from_area=maxl_from_area)",
           "            boundary_edge(k0, edge, n1, n2, prop_from_node, alpha, maxl_from_area)"),
          ("E44 = h**2 / (h**2 + alpha*maxl**2) * E44", "E44 = E44/(1 + alpha*(maxl/h)**2)"),
          ("            n2, n1 = n1, n2", "            tmp = n1\n            n1 = n2\n            n2 = tmp"))
    t.sub(RM, ("        for edge_id in tria.get_edge_ids():\n            edges_ids[edge_id].append(tria)\n",
               "        ids = list(tria.node_ids)\n        for a, b in zip(ids, ids[1:] + ids[:1]):\n            edges_ids[min(a, b), max(a, b)].append(tria)\n"),
          ("    nid = 0\n    for pt in points:\n", "    for nid, pt in enumerate(points, 1):\n"), ("        nid += 1\n", ""),
          ("        if len(pt) == 2:\n            pt = np.array([pt[0], pt[1], 0.])\n", "        pt = np.append(np.asarray(pt), 0.)[:3]\n"))
    t.sub(IN, ("                field += fx * fy * fz * field_nodes[m, n, p]", "                field = field + field_nodes[m][n][p]*(fz*fy)*fx"),
          ("    field_nodes = np.asarray(field_nodes)\n    assert field_nodes.ndim == 2\n    assert field_nodes.shape[0] == x_nodes.shape[0]\n    assert field_nodes.shape[1] == y_nodes.shape[0]\n",
           "    field_nodes = np.array(field_nodes)\n    assert field_nodes.shape == (x_nodes.shape[0], y_nodes.shape[0])\n"))
    t.sub(UT, ("    return elem.get_node_positions().mean(axis=0)", "    return np.mean([node.get_position() for node in elem.nodes_ref], axis=0)"))
    s = t.get(SY)
    s = s.replace('''    if print_file:
        with open(filename, 'w') as f:
            f.write(string)
    return string
''', '''    return finish(string, filename, print_file)
''')
    s = s.replace('def mprint_as_sparse(', '''def finish(string, filename, print_file):
    if print_file:
        f = open(filename, 'w')
        try:
            f.write(string)
        finally:
            f.close()
    return string


def mprint_as_sparse(''', 1)
    t.put(SY, s)


def readers(t):
    """the readers restructured; defensive copies; integration points built from a table"""
    t.sub(RM, ("        node.set_position(mesh, node.get_position())\n        node.trias = set()\n        node.edges = set()\n        node.index = set()\n        node.prop = None\n",
               "        xyz = node.get_position()\n        node.set_position(mesh, xyz)\n        blank(node)\n"),
          ("        node = GRID(nid, cp=0, cd=0, xyz=np.array(pt))\n        node.trias = set()\n        node.edges = set()\n        node.index = set()\n        node.prop = None\n",
           "        node = GRID(nid, xyz=np.array(pt, dtype=float), cp=0, cd=0)\n        blank(node)\n"),
          ("def read_mesh(", "def blank(node):\n    node.prop = None\n    node.index = set()\n    node.trias, node.edges = set(), set()\n\n\ndef read_mesh("),
          ("    for edge in edges.values():\n        for tria in edge.trias:\n            tria.edges.append(edge)\n    for tria in trias:\n        for nid in tria.node_ids:\n            mesh.nodes[nid].trias.add(tria.eid)\n",
           "    for edge in edges.values():\n        for tria in edge.trias:\n            tria.edges += [edge]\n            for node in tria.nodes_ref:\n                node.trias.add(tria.eid)\n"),
          ("    for i1, i2, i3 in tri.simplices:\n        n1 = nodes[i1]\n        n2 = nodes[i2]\n        n3 = nodes[i3]\n", "    for simplex in tri.simplices:\n        n1, n2, n3 = (nodes[i] for i in simplex)\n"))
    t.sub(CL, ("        self.xyz = f1*n1.xyz + f2*n2.xyz + f3*n3.xyz\n        self.tria = tria\n", "        self.tria = tria\n"),
          ("        self.le = le #", "        self.xyz = np.dot([f1, f2, f3], [n1.xyz, n2.xyz, n3.xyz])\n        self.le = le #"),
          ("class IntegrationPoint", "import numpy as np\n\n\nclass IntegrationPoint"))
    s = t.get(K0)
    a = s.index("        tmpvec = (node1.xyz - mid1)")
    b = s.index("        sdomain = np.array(sdomain)")
    s = s[:a] + '''        if tria2 is None:
            corners = [node1.xyz, mid1, node2.xyz]
            weights = [(tria1, (2/3, 1/6, 1/6)), (tria1, (1/6, 2/3, 1/6)), (tria1, (1/2, 1/2, 0))]
        else:
            corners = [node1.xyz, mid1, node2.xyz, mid2]
            weights = [(tria1, (2/3, 1/6, 1/6)), (tria1, (1/6, 2/3, 1/6)), (tria2, (1/6, 2/3, 1/6)), (tria2, (2/3, 1/6, 1/6))]
        sdomain = corners + corners[:1]
        for k, (tria, w) in enumerate(weights):
            vec = sdomain[k] - sdomain[k+1]
            nx, ny, nz = unitvec(np.array([vec[1], -vec[0], 0.]))
            other = edge.othernode1 if tria is tria1 else edge.othernode2
            ipts.append(IntegrationPoint(tria, node1, node2, other, w[0], w[1], w[2], nx, ny, nz, np.hypot(vec[0], vec[1])))

''' + s[b:]
    s = s.replace('''            othernode_id1 = (set(tria1.node_ids) - set(edge.node_ids)).pop()
            edge.othernode1 = mesh.nodes[othernode_id1]
''', '''            edge.othernode1, = [nd for nd in tria1.nodes if nd is not edge.n1 and nd is not edge.n2]
''')
    t.put(K0, s)
    t.sub(KG, ("            indices.append(0)", "            indices.append(-1)") ,
          ("        d4 = d[i4*dof: i4*dof+5]\n", "        d4 = d[i4*dof: i4*dof+5] if i4 >= 0 else np.zeros(5)\n"),
          ("    dof = 5\n    n = d.shape[0] // dof\n", "    dof = 5\n    n = len(d) // dof\n    d = np.array(d, dtype=float)\n"))
    t.sub(SY, ("    if order == 'C':\n        miter = enumerate(np.ravel(m))\n    elif order == 'F':\n        miter = enumerate(np.ravel(m.T))\n    miter = list(miter)\n    for i, v in miter:\n",
               "    flat = list(m) if order == 'C' else list(m.T)\n    for i, v in enumerate(flat):\n"),
          ("        num = 9\n        for i, sub in enumerate(subs[::num]):\n            ls.append('cdef double ' + ', '.join(\n                        map(str, [j[0] for j in subs[num*i:num*(i+1)]])))\n",
           "        names = [str(name) for name, _ in subs]\n        while names:\n            ls.append('cdef double ' + ', '.join(names[:9]))\n            names = names[9:]\n"))


BUNDLES = dict(light=light, heavy=heavy, order=order, readers=readers)


def main():
    args = sys.argv[1:]
    checks = ['C%02d' % k for k in range(1, 25)]
    if args[:1] == ['-c']:
        checks = args[1].split(',')
        args = args[2:]
    bad = []
    for name in args or sorted(BUNDLES):
        scratch = '/tmp/refactor_%d' % os.getpid()
        shutil.rmtree(scratch, ignore_errors=True)
        shutil.copytree('/repo', scratch, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        try:
            BUNDLES[name](Tree(scratch))
            ok, out = tests_pass(scratch)
            print(name, 'stable tests', 'pass' if ok else 'FAIL\n' + out[-1500:], flush=True)
            if not ok:
                bad.append((name, 'tests'))
                continue
            for c in checks:
                t0 = time.time()
                r = subprocess.run([V + '/check.sh', c, 'quick'], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   universal_newlines=True, env=dict(os.environ, MESHLESS_REPO=scratch, VERIF_SEED='1', VERIF_TIER='quick'))
                print('  %-8s %s rc=%d %.0fs%s' % (name, c, r.returncode, time.time()-t0, '' if r.returncode == 0 else '\n' + r.stdout[-1800:]), flush=True)
                if r.returncode:
                    bad.append((name, c))
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    print('not quiet:', bad)


if __name__ == '__main__':
    main()
