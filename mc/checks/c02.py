"""C02: the Nastran deck reader gives the mesh the deck describes."""
import itertools
import os
import shutil
import tempfile

import numpy as np

from .. import common as cm, meshspace as ms, refmodel as rf, topo
from ..impl import I

LEVEL = 'model_checking'
RULE = ('states are bulk data decks: triangulation state x id map x card order x field format x coordinate system of every '
        'grid; each deck is written, read with read_mesh and compared with the incidence structure of the deck, and the '
        'assembled matrices with those of read_delaunay for the same geometry')
BOUNDS = {
    'quick': 'all states of 5 point sets x 3 formats x 5 id maps x 4 card orders (rotated), all 4^4 coordinate system '
             'assignments of 4 grids, 19 foreign element types x every position in decks of up to 3 triangles',
    'thorough': 'as quick with the complete product of formats, id maps and card orders, and the 2x3 lattice and hexagon',
}
ASSUMPTIONS = ['pyNastran parses cards and transforms coordinate systems correctly (dependency, not under test)',
               'rigid and mass elements are not part of the element table of the deck']

FOREIGN = {
    'CQUAD4': "CQUAD4,{e},1,{a},{b},{c},{d}", 'CTRIAR': "CTRIAR,{e},1,{a},{b},{c}", 'CQUADR': "CQUADR,{e},1,{a},{b},{c},{d}",
    'CTRIA6': "CTRIA6,{e},1,{a},{b},{c},{x},{y},{d}",
    'CROD': "PROD,5,1,0.1\nCROD,{e},5,{a},{b}", 'CONROD': "CONROD,{e},{a},{b},1,0.1",
    'CBAR': "PBAR,5,1,1.,1.,1.,1.\nCBAR,{e},5,{a},{b},0.,0.,1.", 'CBEAM': "PBEAM,5,1,1.,1.,1.,,1.\nCBEAM,{e},5,{a},{b},0.,0.,1.",
    'CTUBE': "PTUBE,5,1,0.1,0.01\nCTUBE,{e},5,{a},{b}", 'CELAS1': "PELAS,5,100.\nCELAS1,{e},5,{a},1,{b},1",
    'CELAS2': "CELAS2,{e},100.,{a},1,{b},1", 'CSHEAR': "PSHEAR,5,1,0.1\nCSHEAR,{e},5,{a},{b},{c},{d}",
    'CTETRA': "PSOLID,5,1\nCTETRA,{e},5,{a},{b},{c},{d}", 'CBUSH': "PBUSH,5,K,1.,1.,1.,1.,1.,1.\nCBUSH,{e},5,{a},{b},0.,0.,1.",
    'CDAMP2': "CDAMP2,{e},1.,{a},1,{b},1", 'CVISC': "PVISC,5,1.,1.\nCVISC,{e},5,{a},{b}", 'CGAP': "PGAP,5\nCGAP,{e},5,{a},{b},0.,0.,1.",
    'CPENTA': "PSOLID,5,1\nCPENTA,{e},5,{a},{b},{c},{d},{x},{y}",
    'CDAMP1': "PDAMP,5,1.\nCDAMP1,{e},5,{a},1,{b},1",
}
HEAD = "SOL 101\nCEND\nBEGIN BULK\n"
FORMATS = ['small', 'large', 'free']
IDMAPS = ['seq', 'gap', 'desc', 'big', 'mix', 'kilo']
ORDERS = ['grids', 'elems', 'mixed', 'revers']


def real(v, width):
    for p in range(17, 0, -1):
        for s in (repr(float(v)) if p == 17 else '%.*g' % (p, v),):
            if '.' not in s and 'e' not in s:
                s += '.'
            if 'e' in s and '.' not in s:
                s = s.replace('e', '.e')
            if len(s) <= width:
                return s
    raise ValueError(v)


def card(name, fields, fmt):
    if fmt == 'free':
        return ','.join([name] + [f if isinstance(f, str) else real(f, 16) if isinstance(f, float) else str(f) for f in fields])
    w = 8 if fmt == 'small' else 16
    fl = [f if isinstance(f, str) else real(f, w) if isinstance(f, float) else str(f) for f in fields]
    if fmt == 'small':
        return name.ljust(8) + ''.join(f.rjust(8) for f in fl)
    s = (name + '*').ljust(8) + ''.join(f.rjust(16) for f in fl[:4])
    if len(fl) > 4:
        s = s.ljust(72) + '*\n*       ' + ''.join(f.rjust(16) for f in fl[4:])
    return s


def ids(n, how, base):
    if how == 'seq':
        return [i+1 for i in range(n)]
    if how == 'gap':
        return [3*i+base for i in range(n)]
    if how == 'desc':
        return [n-i for i in range(n)]
    if how == 'big':
        return [90000 + 7*(n-i) for i in range(n)]
    if how == 'kilo':
        return [i+1 if i < 3 else 1000+i for i in range(n)]
    return [((i*5+2) % n)*11 + 4 if n % 5 else i*2+9 for i in range(n)]


# coordinate systems with finite decimals: name -> card, global -> local
CORDS = {
    0: ('', lambda p: p),
    11: ("CORD2R,11,,1.,2.,0.5,1.,2.,1.5\n,1.6,2.8,.5",          # origin (1,2,.5), z up, x = (.6,.8,0)
         lambda p: (lambda d: (0.6*d[0]+0.8*d[1], -0.8*d[0]+0.6*d[1], d[2]))((p[0]-1, p[1]-2, p[2]-0.5))),
    12: ("CORD2C,12,,0.,0.,0.,0.,0.,1.\n,1.,0.,0.",
         lambda p: (float(np.hypot(p[0], p[1])), float(np.degrees(np.arctan2(p[1], p[0]))), p[2])),
    13: ("CORD2R,13,11,0.,0.,0.,0.,0.,-1.\n,0.,1.,0.",           # in system 11: z down, x = y of 11
         lambda p: (lambda q: (q[1], q[0], -q[2]))(CORDS[11][1](p))),
    # systems whose axes or origin hardly differ from the basic ones, a far one, a spherical one and one defined by grids
    14: ("CORD2R,14,,.001,-.002,.0005,.001,-.002,1.0005\n,1.001,-.002,.0005", lambda p: (p[0]-.001, p[1]+.002, p[2]-.0005)),
    15: ("CORD2R,15,,0.,0.,0.,0.,0.,1.\n,1.,.0001,0.",
         lambda p: (lambda c, s: (c*p[0]+s*p[1], c*p[1]-s*p[0], p[2]))(1/np.hypot(1., 1e-4), 1e-4/np.hypot(1., 1e-4))),
    16: ("CORD2R,16,,1000.,-2000.,500.,1000.,-2000.,501.\n,1001.,-2000.,500.", lambda p: (p[0]-1000, p[1]+2000, p[2]-500)),
    17: ("CORD2S,17,,0.,0.,0.,0.,0.,1.\n,1.,0.,0.",
         lambda p: (lambda r: (r, float(np.degrees(np.arccos(p[2]/r))), float(np.degrees(np.arctan2(p[1], p[0])))))(
             float(np.sqrt(p[0]**2+p[1]**2+p[2]**2)))),
    18: ("CORD1R,18,9001,9002,9003", lambda p: (p[1]-3, p[2]+1, p[0]-2)),       # origin (2,3,-1), z = X, x = Y
    19: ("CORD2R,19,,1e-6,0.,0.,1e-6,0.,1.\n,1.,0.,0.", lambda p: (p[0]-1e-6, p[1], p[2])),
}
G18 = {9001: (2., 3., -1.), 9002: (5., 3., -1.), 9003: (2., 4., -1.)}


# optional fields and cards which say nothing about the mesh; "{g}" is the first grid, "{h}" the last
GRIDOPT = {'': ['', '', ''], 'cd': [11, '', ''], 'ps': ['', 123456, ''], 'cdps': [14, 35, 0]}
ELEOPT = {'': [], 'theta': [30.], 'mcid': [11], 'zoffs': ['', .25], 'thick': ['', '', '', '', '', .5, .25, .75]}
OTHER = {
    'loads': "FORCE,1,{g},0,2.,1.,0.,0.\nMOMENT,1,{h},0,2.,0.,1.,0.\nSPC1,2,123,{h}\nSPC,3,{g},1,0.\nPLOAD4,4,{e},2.",
    'rigid': "RBE2,5001,{g},123456,{h}\nRBE3,5003,,{h},123456,1.,123,{g}",
    'mass': "CONM2,5002,{g},,3.", 'plotel': "PLOTEL,5004,{g},{h}",
    'params': "PARAM,POST,-1\nEIGRL,1,,,5\nDMIG,KAAX,0,6,1,0\nSET1,7,{g},THRU,{h}",
    'props': "PCOMP,9,,,,,,,\n,1,.1,0.,YES,1,.1,90.,YES\nPBAR,11,1,1.,1.,1.,1.\nMAT8,8,1.+9,2.+9,.3,1.+8",
}


def deck(m, fmt, idmap, order, cps=None, extra_at=None, extra='', second_pid=False, gopt='', eopt='', other=()):
    n, T = len(m['pts']), len(m['tris'])
    if isinstance(idmap, dict):
        nid, eid = list(idmap['nodes']), list(idmap['elems'])
    else:
        nid, eid = ids(n, idmap, 4), ids(T, idmap if idmap != 'seq' else 'gap', 2) if T else []
    grids, elems = [], []
    for i, p in enumerate(m['pts']):
        cp = cps[i] if cps else 0
        xyz = CORDS[cp][1]((p[0], p[1], m['z']))
        grids.append(card('GRID', [nid[i], cp if cp else ''] + [float(round(v, 12)) for v in xyz] +
                          (GRIDOPT[gopt] if gopt else []), fmt))
    if cps and 18 in cps:
        grids += [card('GRID', [k, '', *v], fmt) for k, v in G18.items()]
    for k, t in enumerate(m['tris']):
        elems.append(card('CTRIA3', [eid[k], 2 if second_pid and k % 2 else 1] + [nid[v] for v in t] + ELEOPT[eopt], fmt))
    if extra_at is not None:
        elems.insert(extra_at, extra)
    rest = ["PSHELL,1,1,0.1", "MAT1,1,7.0e10,,0.3"] + (["PSHELL,2,1,0.2"] if second_pid else [])
    used = set(cps or [])
    used |= ({11} if 13 in used or gopt == 'cd' or eopt == 'mcid' else set()) | ({14} if gopt == 'cdps' else set())
    rest += [CORDS[c][0] for c in sorted(used) if c]
    rest += [OTHER[o].format(g=nid[0], h=max(nid), e=eid[0]) for o in other]
    if order == 'grids':
        cards = grids + elems + rest
    elif order == 'elems':
        cards = rest + elems + grids
    elif order == 'mixed':
        cards = []
        for q in range(max(len(grids), len(elems))):
            cards += elems[q:q+1] + ['$ comment %d' % q] + grids[q:q+1]
        cards += rest
    else:
        cards = elems[::-1] + rest + grids[::-1]
    return HEAD + '\n'.join(cards) + '\nENDDATA\n', nid, eid


_dir = []


def write(text):
    if not _dir:
        _dir.append(tempfile.mkdtemp(prefix='mc_c02_'))
    p = os.path.join(_dir[0], 'deck.dat')
    with open(p, 'w') as f:
        f.write(text)
    return p


def cleanup():
    if _dir:
        shutil.rmtree(_dir.pop(), ignore_errors=True)


def verify(ctx, m, fmt, idmap, order, cps=None, matrices=True, second_pid=False, split=None, **kw):
    text, nid, eid = deck(m, fmt, idmap, order, cps, second_pid=second_pid, **kw)
    if split is not None:
        # the cards from number `split` on in a file of their own
        body = text[len(HEAD):-len('ENDDATA\n')].split('\n')
        while split < len(body) and body[split][:1] in ('*', ',', ' '):
            split += 1
        with open(os.path.join(os.path.dirname(write(text)), 'part.bdf'), 'w') as f:
            f.write('\n'.join(body[split:]))
        text = HEAD + '\n'.join(body[:split]) + "\nINCLUDE 'part.bdf'\nENDDATA\n"
    mesh = I.read_mesh(write(text))
    ctx.trace()
    if cps and 18 in cps:
        matrices = False
        got = {k: mesh.nodes.pop(k, None) for k in G18}
        if not ctx.check(all(got[k] is not None and np.allclose(got[k].xyz, v, atol=1e-11, rtol=0) for k, v in G18.items()),
                         'the grids which define a coordinate system are wrong: %r' % got):
            return
    xyz = [[float(real(v, 8)) if fmt == 'small' and not cps else v for v in p] + [m['z']] for p in m['pts']]
    tol = 0.0 if not cps else 1e-11
    if not topo.verify(ctx, mesh, nid, xyz, eid, [[nid[v] for v in t] for t in m['tris']], tol):
        return
    ctx.outcome((text,))
    if not matrices:
        return
    m2 = dict(m, pts=[p[:2] for p in xyz])
    ref = ms.build(I, m2, as3d=True)
    n, T = len(m['pts']), len(m['tris'])
    pn, pe = cm.hetero(n, T), cm.hetero(T, n)
    d = np.cos(1.7*np.arange(5*n))
    g = rf.Geo(m2)
    for i in range(n):
        mesh.nodes[nid[i]].prop = ref.nodes[i+1].prop = pn[i]
    for k in range(T):
        mesh.elements[eid[k]].prop = ref.elements[k+1].prop = pe[k]
    for nodal in (True, False):
        out = []
        for me, nn in ((mesh, nid), (ref, range(1, n+1))):
            K = np.array(I.calc_k0(me, nodal))
            idx = [me.nodes[q].index for q in nn]
            S = np.zeros((5*n, 5*n))
            I.add_k0s(S, me, nodal)
            G = I.calc_kG(rf.to_impl_vec(d, idx), me, nodal)
            out.append([rf.from_impl(X, idx) for X in (K, S, G)])
            ctx.trace()
        props = pn if nodal else pe
        ab = [rf.k0(g, props, nodal)[1], rf.k0s(g, props, nodal)[1], rf.kG(g, props, nodal, d)[1]]
        for nm, X, Y, A in zip(('k0', 'k0s', 'kG'), out[0], out[1], ab):
            ctx.check(rf.close(X, Y, A), '%s of the deck differs from that of the triangulation: %s' % (nm, rf.worst(X, Y, A)))


# every pair of five grids is an edge of this list of triangles
ALL5 = [list(t) for t in itertools.combinations(range(5), 3)]
BASES = [7, 8, 9, 10, 16, 32, 64, 99, 100, 127, 128, 255, 256, 512, 999, 1000, 1024, 4096, 9999, 10000, 32767, 32768, 65535,
         65536, 99999, 100000, 999999, 1000000, 10000000, 16777216, 90000000]
ALIKE = [1, 2, 3, 11, 12, 13, 21, 23, 111, 112, 121, 123, 213]


def numberings(part):
    if part < len(BASES):
        b = BASES[part]
        for mask in range(32):
            yield dict(nodes=[i+1 + b*(mask >> i & 1) for i in range(5)],
                       elems=[k+1 + b*(mask >> k % 5 & 1)*(k+mask) for k in range(10)])
    else:
        for c in itertools.combinations(ALIKE, 5):
            if c[0] == ALIKE[part - len(BASES)]:
                yield dict(nodes=list(c[::-1]) if sum(c) % 2 else list(c), elems=[q*7 + c[q % 5] for q in range(0, 2000, 200)])


CPTS = [[2, 0], [0, 2], [-2, 0], [0, -3]]
CTRIS = [[[0, 1, 2], [0, 2, 3]], [[1, 2, 3], [3, 0, 1]]]


def plan(tier):
    u = []
    for ps in cm.SMALL[:5]:
        n = len(ms.families(ps)[0])
        u += [dict(kind='mesh', ps=ps, lo=lo, hi=hi, all=(tier == 'thorough'), matrices=True) for lo, hi in cm.chunks(n, 4)]
    u += [dict(kind='cords', c=c) for c in itertools.product([0, 11, 12, 13], repeat=2)]
    new = [14, 15, 16, 17, 18, 19]
    u += [dict(kind='systems', a=a, b=b) for a in [0] + new for b in [0, 11] + new if a != b]
    u += [dict(kind='fields', gopt=g, eopt=e) for g in GRIDOPT for e in ELEOPT]
    u += [dict(kind='foreign', el=e) for e in sorted(FOREIGN)]
    u += [dict(kind='none')]
    u += [dict(kind='numbers', part=i) for i in range(len(BASES) + 9)]
    u += [dict(kind='big', name=nm, fmt=f) for nm in sorted(cm.BIG) for f in FORMATS]
    if tier == 'thorough':
        for ps in ('lat32', 'hexa'):
            n = len(ms.families(ps)[0])
            u += [dict(kind='mesh', ps=ps, lo=lo, hi=hi, all=False, matrices=False) for lo, hi in cm.chunks(n, 40)]
    return u


def run(unit, ctx):
    try:
        _run(unit, ctx)
    finally:
        cleanup()


def _run(unit, ctx):
    if unit['kind'] == 'mesh':
        sts, ntr = ms.families(unit['ps'])
        if unit['lo'] == 0:
            ctx.trans(ntr)
        combos = list(itertools.product(FORMATS, IDMAPS, ORDERS))
        for k in range(unit['lo'], unit['hi']):
            for q, (fmt, idmap, order) in enumerate(combos):
                if not unit['all'] and (q + k) % 2:
                    continue
                if not ctx.case(dict(k=k, fmt=fmt, ids=idmap, order=order)):
                    continue
                ctx.state()
                m = ms.desc(unit['ps'], sts[k], 'id', [0.0, 1.5, -2.25][q % 3], q % 12)
                m['pts'] = [[0.25*v for v in p] for p in m['pts']] + [[7.0, -3.0]]*(q % 2)
                verify(ctx, m, fmt, idmap, order, matrices=unit['matrices'] and (unit['all'] or (q//2 + k) % 3 == 0),
                       second_pid=q % 5 == 0)
    elif unit['kind'] == 'cords':
        for rest in itertools.product([0, 11, 12, 13], repeat=2):
            cps = list(unit['c']) + list(rest)
            for tris in CTRIS:
                for fmt in ('large', 'free'):
                    for idmap, order in (('seq', 'grids'), ('gap', 'revers'), ('desc', 'elems')):
                        if not ctx.case(dict(cps=cps, tris=tris, fmt=fmt, ids=idmap)):
                            continue
                        ctx.state()
                        m = ms.make(CPTS, tris, 0.75)
                        verify(ctx, m, fmt, idmap, order, cps=cps, matrices=idmap == 'gap' and fmt == 'free')
    elif unit['kind'] == 'systems':
        for cps in itertools.product((unit['a'], unit['b']), repeat=4):
            for tris in CTRIS:
                for fmt, idmap, order in (('large', 'gap', 'revers'), ('free', 'desc', 'elems'), ('free', 'seq', 'mixed')):
                    if not ctx.case(dict(cps=cps, tris=tris, fmt=fmt, ids=idmap)):
                        continue
                    ctx.state()
                    m = ms.make(CPTS, tris, 0.75)
                    verify(ctx, m, fmt, idmap, order, cps=list(cps), matrices=idmap == 'desc' and 17 not in cps)
    elif unit['kind'] == 'fields':
        for k, other in enumerate([o for r in range(len(OTHER)+1) for o in itertools.combinations(sorted(OTHER), r)]):
            for tris in CTRIS:
                for q, fmt in enumerate(FORMATS):
                    for split in (None, 0, 2, 4, 6, 9):
                        idmap, order = IDMAPS[(k+q) % len(IDMAPS)], ORDERS[(k//2+q) % 4]
                        if split is not None and k % 8 != q:
                            continue
                        if not ctx.case(dict(other=other, tris=tris, fmt=fmt, split=split)):
                            continue
                        ctx.state()
                        m = ms.make(CPTS, tris, -1.5)
                        verify(ctx, m, fmt, idmap, order, matrices=k % 8 == 3, gopt=unit['gopt'], eopt=unit['eopt'],
                               other=other, split=split)
    elif unit['kind'] == 'numbers':
        m = ms.make([[0.25*v for v in p] for p in ([0, 0], [4, 1], [5, 6], [-2, 5], [1, 3])], ALL5, 0.5)
        for q, idmap in enumerate(numberings(unit['part'])):
            order = ORDERS[q % 4]
            if len(set(idmap['elems'])) == 10 and len(set(idmap['nodes'])) == 5 and ctx.case(dict(ids=idmap, order=order)):
                ctx.state()
                verify(ctx, m, 'free', idmap, order, matrices=False)
    elif unit['kind'] == 'big':
        m = cm.BIG[unit['name']]()
        m = dict(m, pts=[[float('%.4g' % v) for v in p] for p in m['pts']])
        for q, idmap in enumerate(IDMAPS):
            if ctx.case(dict(ids=idmap)):
                ctx.state()
                verify(ctx, m, unit['fmt'], idmap, ORDERS[q % 4], matrices=q == 5 and len(m['pts']) < 100)
    elif unit['kind'] == 'foreign':
        ps = 'quad_c'
        for tris in ([], [[0, 1, 4]], [[0, 1, 4], [1, 2, 4]], [[0, 1, 4], [1, 2, 4], [2, 3, 4]]):
            for pos in range(len(tris)+1):
                for e in (1, 77):
                    for order in ORDERS:
                        if not ctx.case(dict(el=unit['el'], pos=pos, n=len(tris), e=e, order=order)):
                            continue
                        ctx.state()
                        m = ms.desc(ps, tris, 'id', 0.0, 0)
                        m['pts'].append([9., 9.])
                        nid = ids(6, 'seq', 1)
                        ext = FOREIGN[unit['el']].format(e=e, a=1, b=2, c=3, d=4, x=5, y=6)
                        text, _, _ = deck(m, 'free', 'seq', order, extra_at=pos, extra=ext)
                        if unit['el'] in ('CTETRA', 'CPENTA'):
                            text = text.replace('GRID,4,,0.,4.,0.', 'GRID,4,,0.,4.,3.')
                        p = write(text)
                        ctx.trace()
                        try:
                            I.read_mesh(p)
                        except NotImplementedError:
                            ctx.check(True, '')
                            ctx.outcome((unit['el'], pos))
                        except Exception as ex:
                            ctx.fail('%s deck: %r instead of NotImplementedError' % (unit['el'], ex))
                        else:
                            ctx.fail('a deck with a %s was accepted' % unit['el'])
    else:
        # the same decks without the foreign element are accepted
        for fmt in FORMATS:
            if ctx.case(dict(fmt=fmt)):
                ctx.state()
                m = ms.desc('quad_c', [[0, 1, 4], [1, 2, 4]], 'id', 0.0, 0)
                verify(ctx, m, fmt, 'seq', 'grids')
