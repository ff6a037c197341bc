"""C15: 2-D Lagrange interpolation reproduces every polynomial it can represent."""
import itertools
from fractions import Fraction as F

import numpy as np

from ..impl import I

LEVEL = 'model_checking'
RULE = ('all node counts and all ordered selections of control coordinates from an alphabet, the complete unit field basis '
        'and all representable monomials on a query grid that determines them, against exact rational Lagrange polynomials')
ALPH = [F(0), F(1), F(-2), F(5, 2), F(-3, 4), F(7)]
SHIFT = {'plain': (F(1), F(0)), 'small': (F(1, 1024), F(3)), 'big': (F(512), F(-4096)),
         'tiny': (F(1, 2**34), F(0)), 'huge': (F(2**30), F(0)), 'close': (F(1, 2**12), F(1000))}
BOUNDS = {
    'quick': 'M, N in 1..3 with all ordered selections of 5 coordinates for one direction x 3 fixed selections for the '
             'other, M, N in 1..5 with 2 selections each; 6 scales; 12 input forms; control coordinates, queries and fields of 11 numeric types with values at the ends of their ranges; coordinates very near to each other; all query array lengths 0..8 and 13 up to 5000; every mix of scalar, 0-d, single and array queries; 6 to 12 nodes in a direction in 4 orders; all unit fields and monomials; all '
             'field shapes 0..4 x 0..4 against all node counts 1..3',
    'thorough': 'as quick with the product of all ordered selections for M, N <= 3 and orders of 4 and 5 nodes',
}
ASSUMPTIONS = ['distinct control coordinates', 'with a single control node in both directions a constant is returned '
               '(compared after broadcasting)']


def lagr(nodes, p, x):
    r = F(1)
    for q, xq in enumerate(nodes):
        if q != p:
            r *= (x - xq)/(nodes[p] - xq)
    return r


def queries(nodes):
    lo, hi = min(nodes), max(nodes)
    w = (hi - lo) or F(1)
    return list(nodes) + [lo - w/2, lo + w*F(3, 8), hi + w/4, (lo+hi)/2]


FORMS = ['array', 'list', 'tuple', 'intfield', 'strided', 'readonly', 'fortran', 'column', 'intnodes', 'intlists', 'int32q',
         'mixed']


def whole(v):
    return all(x.denominator == 1 for x in v)


def call(fn, q, nodes, field, form):
    """q: query arrays; returns array"""
    if form == 'list':
        nodes = [list(map(float, n)) for n in nodes]
        return fn(*q, *nodes, np.asarray(field).tolist())
    if form == 'tuple':
        nodes = [tuple(map(float, n)) for n in nodes]
        return fn(*q, *nodes, tolist_tuple(np.asarray(field)))
    if form in ('intnodes', 'intlists', 'int32q', 'mixed'):
        # coordinates that are whole numbers as integers; mixed: only the first such direction
        first = [k for k, n in enumerate(nodes) if whole(n)][:1]
        out = []
        for k, n in enumerate(nodes):
            if whole(n) and (form != 'mixed' or [k] == first):
                n = [int(v) for v in n]
                out.append(n if form == 'intlists' else np.array(n, dtype=np.int32 if form == 'int32q' and
                                                                 max(map(abs, n)) < 2**31 else int))
            else:
                out.append([float(v) for v in n] if form == 'intlists' else np.array([float(v) for v in n]))
        f = np.asarray(field)
        return fn(*q, *out, f.tolist() if form == 'intlists' else f)
    nodes = [np.array([float(v) for v in n]) for n in nodes]
    if form == 'strided':
        nodes = [np.repeat(n, 2)[::2] for n in nodes]
        big = np.zeros([2*s for s in np.shape(field)])
        v = big[tuple(slice(None, None, 2) for _ in np.shape(field))]
        v[...] = field
        return fn(*[np.repeat(a, 3)[::3] for a in q], *nodes, v)
    if form == 'readonly':
        field = np.array(field, float)
        for a in list(nodes) + [field] + list(q):
            a.setflags(write=False)
        return fn(*q, *nodes, field)
    if form == 'fortran':
        return fn(*q, *nodes, np.asfortranarray(np.array(field, float)))
    if form == 'column':
        return np.ravel(fn(*[a[:, None] for a in q], *nodes, np.array(field, float)))
    return fn(*q, *nodes, np.asarray(field))


def tolist_tuple(a):
    return tuple(tolist_tuple(x) for x in a) if a.ndim > 1 else tuple(a.tolist())


def basis(nodes, qs):
    """exact Lagrange basis at the queries [p][k] as floats, and magnitude"""
    B = np.array([[float(lagr(nodes, p, x)) for x in qs] for p in range(len(nodes))])
    return B


def verify(ctx, xs, ys, form, scalar):
    M, N = len(xs), len(ys)
    qx, qy = queries(xs), queries(ys)
    pairs = list(itertools.product(qx, qy))
    X, Y = np.array([float(a) for a, _ in pairs]), np.array([float(b) for _, b in pairs])
    Bx, By = basis(xs, [a for a, _ in pairs]), basis(ys, [b for _, b in pairs])
    mag = np.abs(Bx).sum(axis=0)*np.abs(By).sum(axis=0)
    int_ = form == 'intfield'

    def get(f):
        r = call(I.lag2, (X.copy(), Y.copy()), (xs, ys), f, form)
        ctx.trace()
        return np.broadcast_to(np.asarray(r, float), X.shape)
    total = 0
    for m in range(M):
        for n in range(N):
            f = np.zeros((M, N), dtype=int if int_ else float)
            f[m, n] = 1
            got = get(f)
            ctx.check(np.all(np.abs(got - Bx[m]*By[n]) <= 1e-11*(1 + mag)), 'unit field (%d, %d): wrong interpolation' % (m, n))
            total = total + got
    # every monomial it can represent, everywhere; linearity with a full field
    for a in range(M):
        for b in range(N):
            f = np.array([[float(x**a * y**b) for y in ys] for x in xs])
            if int_ and any((x**a*y**b).denominator != 1 or abs(x**a*y**b) >= 2**53 for x in xs for y in ys):
                continue
            want = np.array([float(x**a * y**b) for x, y in pairs])
            s = np.abs(f).max()
            got = get(f.astype(int) if int_ else f)
            ctx.check(np.all(np.abs(got - want) <= 1e-11*(s*mag + np.abs(want))), 'x**%d*y**%d is not reproduced' % (a, b))
    f = np.array([[1.5 - 0.7*i*i + 2*j for j in range(N)] for i in range(M)])
    g = np.array([[(-1.)**i*(3 + j) for j in range(N)] for i in range(M)])
    if not int_:
        got = get(2*f - 3*g)
        ctx.check(np.all(np.abs(got - 2*get(f) + 3*get(g)) <= 1e-10*(1+mag)*20), 'not linear in the field')
    # query arrays of every length, and of the lengths of the node lists
    for L in range(0, max(M, N, 6) + 3):
        sel = [(5*k + L) % len(pairs) for k in range(L)]
        v = I.lag2(X[sel], Y[sel], [float(x) for x in xs], [float(y) for y in ys], f)
        ctx.trace()
        want = np.einsum('mk,nk,mn->k', Bx[:, sel], By[:, sel], f)
        v = np.asarray(v, float)
        ctx.check((v.shape == (L,) or M == N == 1 and v.shape == ()) and np.all(np.abs(np.broadcast_to(v, (L,)) - want) <= 1e-10*(1+mag[sel])*20),
                  'wrong values for %d query points' % L)
    # control nodes and elementwise evaluation
    if scalar:
        for k in range(0, len(pairs), 5):
            v = I.lag2(float(X[k]), float(Y[k]), [float(x) for x in xs], [float(y) for y in ys], f.tolist())
            ctx.trace()
            want = float(sum(Bx[i, k]*By[j, k]*f[i, j] for i in range(M) for j in range(N)))
            ctx.check(np.ndim(v) == 0 and abs(v - want) <= 1e-10*(1+mag[k])*20, 'scalar query gives another value')
        v = np.asarray(I.lag2(X.reshape(len(qx), -1), Y.reshape(len(qx), -1), [float(x) for x in xs], [float(y) for y in ys], f))
        ctx.check(v.ndim == 0 or v.shape == (len(qx), len(qy)), '2-D arrays of queries lose their shape')
        ctx.check(np.all(np.abs(np.broadcast_to(v, (len(qx), len(qy))).ravel() - get(f) if not int_ else 0) <= 1e-10*(1+mag)*20),
                  '2-D arrays of queries are not evaluated elementwise')
    ctx.outcome((xs, ys, form))


def shapes(ctx, M, N):
    xs, ys = [float(a) for a in ALPH[:M]], [float(a) for a in ALPH[:N]]
    q = np.array([0.3, 0.4])
    for shape in [(i, j) for i in range(5) for j in range(5)] + [(M*N,), (M, N, 1), (1, M, N), ()]:
        for form in ('array', 'list'):
            if not ctx.case(dict(M=M, N=N, shape=shape, form=form)):
                continue
            ctx.state()
            f = np.ones(shape)
            f = f.tolist() if form == 'list' else f
            actual = np.asarray(f).shape
            try:
                I.lag2(q, q, xs, ys, f)
                ok = True
            except AssertionError:
                ok = False
            except Exception as e:
                ctx.fail('field of shape %s for %d x %d nodes: %r' % (shape, M, N, e))
                continue
            ctx.trace()
            ctx.check(ok == (actual == (M, N)), 'field of shape %s for %d x %d nodes is %s' % (
                shape, M, N, 'accepted' if ok else 'refused'))
            ctx.outcome((M, N, shape, ok))


# ------------------------- long, many and mixed: shared with the 3-D check

MANY = [F(0), F(3), F(-2), F(5, 2), F(-3, 4), F(7), F(-5), F(1), F(9, 2), F(-7, 2), F(6), F(-15, 4)]
LENGTHS = [255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 5000]
KINDS = ['float', '0-d', 'one', 'array']


def field_of(counts):
    i = np.indices(counts)
    return 1.5 - 0.7*i[0]**2 + sum((2 - 3*k)*v for k, v in enumerate(i[1:])) + np.cos(3*i.sum(axis=0))


def values(nodes, qs, f, Bs):
    sub = 'mnp'[:len(nodes)]
    e = ','.join(c + 'k' for c in sub) + ',' + sub + '->k'
    return np.einsum(e, *Bs, f), np.einsum(e, *map(np.abs, Bs), np.abs(f))


def accept(ctx, got, cands, what):
    for k, (v, m, kf) in enumerate(cands):
        if np.all(np.abs(got - v) <= 1e-11*(m + np.abs(v))):
            if kf:
                ctx.known_or_fail(kf, what)
                ctx.count('equal_to_known_defect')
            else:
                ctx.check(True, '')
            return True
    ctx.fail(what)
    return False


def oracle(nodes, cols, f, defect=None):
    Bs = [basis(v, c) for v, c in zip(nodes, cols)]
    out = [values(nodes, cols, f, Bs) + (None,)]
    if defect:
        Bd = defect(nodes, cols)
        if Bd is not None:
            v, m = values(nodes, cols, f, Bs[:2] + [Bd])
            out.append((v, m + out[0][1], 'KF-A'))
    return out


def base_points(nodes, many):
    """a few exact query points per direction, never an aligned pattern"""
    qs = [queries(v)[:9] for v in nodes]
    return [[q[(k*(2*d + 1) + k//7 + d) % len(q)] for k in range(many)] for d, q in enumerate(qs)]


def long_arrays(ctx, fn, nodes, defect=None):
    f = field_of([len(v) for v in nodes])
    cols = base_points(nodes, 61)
    cands = oracle(nodes, cols, f, defect)
    fl = [np.array([float(x) for x in v]) for v in nodes]
    Q = [np.array([float(x) for x in c]) for c in cols]
    for L in LENGTHS:
        for form in ('flat', '2-D', 'strided'):
            if form == '2-D' and L % 2 and L % 5:
                continue
            sel = np.arange(L) % 61
            q = [c[sel] for c in Q]
            if form == '2-D':
                q = [a.reshape(2 if L % 2 == 0 else 5, -1) for a in q]
            elif form == 'strided':
                q = [np.repeat(a, 2)[::2] for a in q]
            got = np.asarray(fn(*q, *fl, f), float)
            ctx.trace()
            if ctx.check(got.shape in (q[0].shape, ()), '%d queries (%s) give the shape %s' % (L, form, got.shape)):
                accept(ctx, np.broadcast_to(got, q[0].shape).ravel(), [(v[sel], m[sel], kf) for v, m, kf in cands],
                       'wrong values for %d query points (%s)' % (L, form))


def mixed_queries(ctx, fn, nodes, defect=None):
    """every mix of scalars and arrays"""
    f = field_of([len(v) for v in nodes])
    fl = [[float(x) for x in v] for v in nodes]
    cols = base_points(nodes, 9)
    for kinds in itertools.product(KINDS, repeat=len(nodes)):
        if defect and defect(nodes, cols) is not None and 'one' in kinds and 'array' in kinds:
            continue        # the recorded defect builds terms of different shapes, which cannot be added in place
        for shift in (0, 4):
            use = [c[shift:shift+5] if kd == 'array' else [c[shift]]*5 for c, kd in zip(cols, kinds)]
            cands = oracle(nodes, use, f, defect)
            q = []
            for c, kd in zip(use, kinds):
                v = [float(x) for x in c]
                q.append({'float': v[0], '0-d': np.array(v[0]), 'one': np.array(v[:1]), 'array': np.array(v)}[kd])
            shape = np.broadcast_shapes(*map(np.shape, q))
            keep = [np.copy(a) for a in q]
            got = np.asarray(fn(*q, *fl, f), float)
            ctx.trace()
            ctx.check(all(np.array_equal(a, b) for a, b in zip(keep, q)), 'queries %s are changed' % (kinds,))
            # a direction with a single node does not bring its shape along
            brings = [np.shape(a) for a, v in zip(q, fl) if len(v) > 1]
            if defect and defect(nodes, cols) is not None:
                brings = [()]
            if got.shape in (shape, np.broadcast_shapes(*brings)):
                got = np.broadcast_to(got, shape)
            else:
                ctx.fail('queries %s give the shape %s' % (kinds, got.shape))
                continue
            accept(ctx, np.broadcast_to(got, (5,) if shape in ((1,), ()) else shape).ravel(), cands, 'wrong values for queries %s' % (kinds,))


def simple_fields(ctx, fn, nodes, defect=None):
    """fields of zeros, of one number, with zero rows, and of whole numbers: values and shapes"""
    counts = [len(v) for v in nodes]
    fl = [np.array([float(x) for x in v]) for v in nodes]
    cols = base_points(nodes, 6)
    z = np.zeros(counts)
    fields = [('zero', z), ('integer zero', z.astype(int)), ('one', z + 1), ('negative', z - 2.5), ('huge', field_of(counts)*1e250),
              ('tiny', field_of(counts)*1e-250)]
    for d, c in enumerate(counts):
        for k in range(c):
            f = field_of(counts)
            np.moveaxis(f, d, 0)[k] = 0
            fields.append(('zeros at %d of direction %d' % (k, d), f))
    for nm, f in fields:
        cands = oracle(nodes, cols, f, defect)
        for shape in ((6,), (2, 3), (6, 1)):
            q = [np.array([float(x) for x in c]).reshape(shape) for c in cols]
            got = np.asarray(fn(*q, *fl, f))
            ctx.trace()
            if ctx.check(got.shape == shape or (max(counts) == 1 or defect and defect(nodes, cols) is not None) and got.shape == (), '%s field: queries of shape %s give the shape %s' % (nm, shape, got.shape)):
                accept(ctx, np.broadcast_to(got, shape).ravel(), cands, '%s field: wrong values' % nm)


def many_nodes(ctx, fn, nodes, defect=None):
    cols = base_points(nodes, 40)
    fl = [[float(x) for x in v] for v in nodes]
    Q = [np.array([float(x) for x in c]) for c in cols]
    counts = [len(v) for v in nodes]
    fields = [('full', field_of(counts))]
    big = int(np.argmax(counts))
    for k in range(counts[big]):
        f = np.zeros(counts)
        f[tuple(k if d == big else (k + d) % c for d, c in enumerate(counts))] = 1
        fields.append(('unit %d' % k, f))
    for nm, f in fields:
        got = np.broadcast_to(np.asarray(fn(*[q.copy() for q in Q], *fl, f), float), Q[0].shape)
        ctx.trace()
        accept(ctx, got, oracle(nodes, cols, f, defect), '%s field on %s nodes: wrong values' % (nm, counts))


# control coordinates whose differences and products leave the range of their own type
TYPES = {'int8': [-100, 100, 27], 'uint8': [200, 0, 255], 'int16': [-30000, 29999, 100], 'uint16': [1, 65000, 0],
         'int32': [-2*10**9, 2*10**9, 7], 'uint32': [3, 4*10**9, 1], 'int64': [-2**62, 2**62, 2**40], 'uint64': [2**50, 0, 2**63],
         'float32': [-700, .5, 3e4], '>f8': [1, -3, 2.5], '>i4': [5, -2*10**9, 2*10**9]}


def types(ctx, fn, counts, defect=None):
    """coordinates, queries and fields of every numeric type, one direction at a time and all directions"""
    for nm, vals in TYPES.items():
        for at in [(d,) for d in range(len(counts))] + [tuple(range(len(counts)))]:
            if not ctx.case(dict(type=nm, at=at, counts=counts)):
                continue
            ctx.state()
            nodes = [[F(v) for v in (vals[d:] + vals[:d])[:n]] if d in at else [F(3*k*k - 4*k + d) for k in range(n)]
                     for d, n in enumerate(counts)]
            fl = [np.array([int(x) if x.denominator == 1 else float(x) for x in v],
                           nm if d in at else float) for d, v in enumerate(nodes)]
            cols = base_points(nodes, 7)
            f = field_of(counts)
            fi = np.array((np.arange(np.prod(counts))*37 % 201).reshape(counts) - 100)
            tol = 1e-4 if nm == 'float32' else 1e-11
            for what, q, c, fld in [('queries at any place', [np.array([float(x) for x in v]) for v in cols], cols, f),
                                    ('queries of the same type', [v[np.arange(5) % len(v)] for v in fl],
                                     [[v[k % len(v)] for k in range(5)] for v in nodes], f),
                                    ('field of int8', [np.array([float(x) for x in v]) for v in cols], cols, fi.astype(np.int8))]:
                got = np.broadcast_to(np.asarray(fn(*[a.copy() for a in q], *fl, fld), float), q[0].shape)
                ctx.trace()
                cands = oracle(nodes, c, np.asarray(fld, float), defect)
                accept(ctx, got, [(v, m*tol/1e-11, kf) for v, m, kf in cands], '%s coordinates in directions %s, %s: wrong values' % (nm, at, what))
            ctx.outcome((nm, at, tuple(counts)))


# control coordinates very near to each other
NEAR = [[1e9, 1e9 + .5, 1e9 + 1], [1., 1 + 2.**-40, 2.], [0., 2.**-60, 1.], [2.**-30, -2.**-30, 0.], [2.**50 + 1, 2.**50, 3.],
        [-7., -7 - 2.**-50, -7 + 2.**-50], [1e-9, 2e-9, 0.], [-1e5, -1e5 + 2.**-30, 1e5]]


def near(ctx, fn, counts, defect=None):
    """one direction at a time with near coordinates, and all of them"""
    for q, vals in enumerate(NEAR):
        for at in [(d,) for d in range(len(counts))] + [tuple(range(len(counts)))]:
            if not ctx.case(dict(near=vals, at=at, counts=counts)):
                continue
            ctx.state()
            nodes = []
            for d, n in enumerate(counts):
                v = NEAR[(q + d) % len(NEAR)] if len(at) > 1 else vals if d in at else [0., 3., -2.]
                nodes.append((v[d:] + v[:d])[:n])
            pts = [v + [(v[0] + v[-1])/2, v[0] - .75*(v[-1] - v[0]), v[-1]*1.5 + .25] for v in nodes]
            cols = [[p[k*(d + 1) % len(p)] for k in range(12)] for d, p in enumerate(pts)]
            exact = [[F(x) for x in v] for v in nodes]
            f = field_of(counts)
            got = np.broadcast_to(np.asarray(fn(*map(np.array, cols), *map(np.array, nodes), f), float), (12,))
            ctx.trace()
            accept(ctx, got, oracle(exact, [[F(x) for x in c] for c in cols], f, defect), 'control coordinates %s: wrong values' % (nodes,))
            ctx.outcome((q, at, tuple(counts)))


def many_orders(c):
    """orders of the first c of the coordinates"""
    v = MANY[:c]
    return [v, sorted(v), sorted(v)[::-1], v[c//2:] + v[:c//2]]


def selections(k, n=5):
    return list(itertools.permutations(range(n), k))


FIX = {1: [(1,), (3,)], 2: [(0, 1), (4, 2), (5, 3)], 3: [(0, 1, 2), (3, 0, 4), (5, 1, 2)],
       4: [(0, 1, 2, 3), (4, 2, 5, 0)], 5: [(2, 0, 3, 1, 4), (4, 5, 1, 3, 0)]}


EXTRA = {'near': near, 'types': types, 'simple': simple_fields, 'long': long_arrays, 'mix': mixed_queries, 'many': many_nodes}


def extra(ctx, fn, unit, defect=None, orders=4):
    k, c = unit['kind'], unit['c']
    if k in ('types', 'near'):
        return EXTRA[k](ctx, fn, list(c), defect)
    if k == 'many':
        it = list(zip(*[many_orders(n)[d % 2:] + many_orders(n)[:d % 2] if n > 3 else [MANY[q:q+n] for q in range(4)]
                        for d, n in enumerate(c)]))
    else:
        it = itertools.product(*[[[ALPH[i] for i in f] for f in FIX[n][:2]] for n in c])
    for nodes in it:
        if ctx.case(dict(kind=k, nodes=[list(map(float, v)) for v in nodes])):
            ctx.state()
            EXTRA[k](ctx, fn, nodes, defect)
            ctx.outcome((k, nodes))


def plan(tier):
    u = []
    for M in (1, 2, 3):
        for N in (1, 2, 3):
            if tier == 'thorough':
                ns = len(selections(M))
                u += [dict(kind='prod', M=M, N=N, part=p, parts=max(1, ns//4)) for p in range(max(1, ns//4))]
            else:
                u += [dict(kind='x', M=M, N=N), dict(kind='y', M=M, N=N)]
    u += [dict(kind='fix', M=M, N=N) for M in range(1, 6) for N in range(1, 6)]
    u += [dict(kind='shapes', M=M, N=N) for M in (1, 2, 3) for N in (1, 2, 3)]
    u += [dict(kind='long', c=c) for c in itertools.product((1, 2, 3), repeat=2)]
    u += [dict(kind=kd, c=c) for kd in ('mix', 'simple', 'types', 'near') for c in itertools.product((1, 2, 3), repeat=2)]
    u += [dict(kind='many', c=(a, b)) for a in range(6, 13) for b in ((1, 2, 3, a) if tier == 'thorough' else (1, 3))]
    u += [dict(kind='many', c=(b, a)) for a in range(6, 13) for b in (1, 3)]
    if tier == 'thorough':
        u += [dict(kind='perm', k=k, part=p) for k in (4, 5) for p in range(6)]
    return u


def run(unit, ctx):
    k = unit['kind']
    if k == 'shapes':
        return shapes(ctx, unit['M'], unit['N'])
    if k in EXTRA:
        return extra(ctx, I.lag2, unit)
    if k == 'x':
        it = ((a, b) for a in selections(unit['M']) for b in FIX[unit['N']])
    elif k == 'y':
        it = ((a, b) for a in FIX[unit['M']] for b in selections(unit['N']))
    elif k == 'prod':
        it = ((a, b) for a in selections(unit['M'])[unit['part']::unit['parts']] for b in selections(unit['N']))
    elif k == 'perm':
        base = selections(unit['k'], unit['k'])[unit['part']::6]
        it = itertools.chain(((a, (1, 0)) for a in base), (((2, 0), a) for a in base))
    else:
        it = ((a, b) for a in FIX[unit['M']] for b in FIX[unit['N']])
    for q, (a, b) in enumerate(it):
        for scale in sorted(SHIFT) if k == 'fix' else [sorted(SHIFT)[q % len(SHIFT)]]:
            s, t = SHIFT[scale]
            for form in FORMS if k == 'fix' and scale == 'plain' else [FORMS[q % len(FORMS)]]:
                if ctx.case(dict(a=a, b=b, scale=scale, form=form)):
                    ctx.state()
                    ctx.trans(len(a) + len(b))
                    verify(ctx, [s*ALPH[i] + t for i in a], [s*ALPH[i] + t for i in b], form, q % 3 == 0)
