"""C16: 3-D Lagrange interpolation reproduces every polynomial it can represent."""
import itertools
from fractions import Fraction as F

import numpy as np

from ..impl import I
from .c15 import ALPH, EXTRA, FORMS, SHIFT, basis, call, extra, lagr, queries, selections

LEVEL = 'model_checking'
RULE = ('all node counts and ordered selections of control coordinates, the complete unit field basis and all representable '
        'monomials on a query grid, against exact rational Lagrange polynomials; where the result differs it must be '
        'exactly that of the recorded defect KF-A')
BOUNDS = {
    'quick': 'M, N, P in 1..3: all ordered selections of 4 coordinates in one direction at a time with 2 selections in the '
             'others; z equal to y and z different from y; 6 scales, 12 input forms, 11 numeric types, all query array lengths 0..6 and 13 up to 5000, every mix of scalar and array queries, 6 to 9 nodes in a direction; all field shapes for node counts 1..2',
    'thorough': 'as quick with 5 coordinates, counts up to 4 and 3 selections in the others',
}
ASSUMPTIONS = ['distinct control coordinates',
               'KF-A: the z basis is built from the y coordinates; recorded, matched exactly, reported']


def defect_basis(zs, ys, q):
    """z basis of the recorded defect"""
    out = []
    for p, zp in enumerate(zs):
        row = []
        for z in q:
            r = F(1)
            for k, yk in enumerate(ys):
                if k != p and zp != yk:
                    r *= (z - yk)/(zp - yk)
            row.append(float(r))
        out.append(row)
    return np.array(out)


def verify(ctx, xs, ys, zs, form, scalar):
    M, N, P = len(xs), len(ys), len(zs)
    qs = [queries(v) for v in (xs, ys, zs)]
    n = max(map(len, qs))
    # control nodes completely, other points along a Latin pattern that covers every pair of directions
    pts = list(itertools.product(xs, ys, zs))
    for i in range(n):
        for j in range(n):
            pts.append((qs[0][i % len(qs[0])], qs[1][j % len(qs[1])], qs[2][(i + 2*j) % len(qs[2])]))
    Q = [np.array([float(p[k]) for p in pts]) for k in range(3)]
    B = [basis(v, [p[k] for p in pts]) for k, v in enumerate((xs, ys, zs))]
    Bd = defect_basis(zs, ys, [p[2] for p in pts])
    mag = np.prod([np.abs(b).sum(axis=0) for b in B], axis=0)
    magd = np.prod([np.abs(b).sum(axis=0) for b in (B[0], B[1], Bd)], axis=0)
    # cancelled factors of the defect basis make intermediate sums larger than the result
    int_ = form == 'intfield'

    def get(f):
        r = call(I.lag3, [q.copy() for q in Q], (xs, ys, zs), f, form)
        ctx.trace()
        return np.broadcast_to(np.asarray(r, float), Q[0].shape)

    def judge(got, f, what):
        fa = np.abs(f).max()
        want = np.einsum('mk,nk,pk,mnp->k', B[0], B[1], B[2], f)
        if np.all(np.abs(got - want) <= 1e-11*(fa*mag + np.abs(want))):
            ctx.check(True, '')
            return True
        bad = np.einsum('mk,nk,pk,mnp->k', B[0], B[1], Bd, f)
        if list(zs) != list(ys) and np.all(np.abs(got - bad) <= 1e-11*(fa*magd + np.abs(bad) + fa*mag)):
            ctx.known_or_fail('KF-A', what)
            ctx.count('equal_to_known_defect')
            return False
        ctx.fail(what)
        return False
    h = np.array([[[0.3 + i - 0.6*j*j + 0.8*k for k in range(P)] for j in range(N)] for i in range(M)])
    for L in range(0, max(M, N, P, 4) + 3):
        sel = [(7*k + L) % len(pts) for k in range(L)]
        v = np.asarray(I.lag3(*[q[sel] for q in Q], *[[float(c) for c in w] for w in (xs, ys, zs)], h), float)
        ctx.trace()
        if not ctx.check(v.shape in ((L,), ()), '%d query points give shape %s' % (L, v.shape)):
            continue
        want, bad = (np.einsum('mk,nk,pk,mnp->k', B[0][:, sel], B[1][:, sel], b[:, sel], h) for b in (B[2], Bd))
        fa = np.abs(h).max()
        if np.all(np.abs(v - want) <= 1e-11*(fa*mag[sel] + np.abs(want))):
            pass
        elif list(zs) != list(ys) and np.all(np.abs(v - bad) <= 1e-11*(fa*magd[sel] + np.abs(bad) + fa*mag[sel])):
            ctx.known_or_fail('KF-A', 'wrong values')
        else:
            ctx.fail('wrong values for %d query points' % L)
    exact = True
    for idx in itertools.product(range(M), range(N), range(P)):
        f = np.zeros((M, N, P), dtype=int if int_ else float)
        f[idx] = 1
        exact &= judge(get(f), f, 'unit field %s: wrong interpolation' % (idx,))
    f = np.array([[[1.5 - 0.7*i*i + 2*j - 1.1*k*(i+1) for k in range(P)] for j in range(N)] for i in range(M)])
    g = np.array([[[(-1.)**(i+k)*(3 + j) for k in range(P)] for j in range(N)] for i in range(M)])
    big = 40*(1 + mag + magd)
    if not int_:
        Gf = get(f)
        judge(Gf, f, 'wrong interpolation')
        ctx.check(np.all(np.abs(get(2*f - 3*g) - 2*Gf + 3*get(g)) <= 1e-10*big), 'not linear in the field')
        for a, b, c in itertools.product(range(M), range(N), range(P)):
            if a + b + c == 0 or (a, b, c) == (M-1, N-1, P-1) or sorted((a, b, c))[:2] == [0, 0]:
                h = np.array([[[float(x**a*y**b*z**c) for z in zs] for y in ys] for x in xs])
                got = get(h)
                want = np.array([float(p[0]**a*p[1]**b*p[2]**c) for p in pts])
                if judge(got, h, 'x**%d*y**%d*z**%d is not reproduced' % (a, b, c)):
                    ctx.check(np.all(np.abs(got-want) <= 1e-10*(np.abs(h).max()*mag + np.abs(want))), 'oracle disagreement')
        if scalar:
            nodes = [[float(v) for v in w] for w in (xs, ys, zs)]
            for k in range(0, len(pts), 11):
                v = I.lag3(*[float(q[k]) for q in Q], *nodes, f.tolist())
                ctx.trace()
                ctx.check(np.ndim(v) == 0 and abs(v - Gf[k]) <= 1e-10*big[k], 'scalar query gives another value')
            m = len(pts)//2
            v = np.asarray(I.lag3(*[q[:2*m].reshape(2, m) for q in Q], *nodes, f))
            ctx.check(v.ndim == 0 or v.shape == (2, m), '2-D arrays of queries lose their shape')
            ctx.check(np.all(np.abs(np.broadcast_to(v, (2, m)).ravel() - Gf[:2*m]) <= 1e-10*big[:2*m]),
                      '2-D arrays of queries are not evaluated elementwise')
    ctx.outcome((xs, ys, zs, form, exact))


def shapes(ctx, M, N, P):
    nodes = [[float(a) for a in ALPH[:k]] for k in (M, N, P)]
    q = np.array([0.3, 0.4])
    for shape in list(itertools.product(range(4), repeat=3)) + [(M*N*P,), (M, N*P), (M, N, P, 1), (1, M, N, P), ()]:
        if not ctx.case(dict(counts=(M, N, P), shape=shape)):
            continue
        ctx.state()
        try:
            I.lag3(q, q, q, *nodes, np.ones(shape))
            ok = True
        except AssertionError:
            ok = False
        except Exception as e:
            ctx.fail('field of shape %s for %s nodes: %r' % (shape, (M, N, P), e))
            continue
        ctx.trace()
        ctx.check(ok == (shape == (M, N, P)), 'field of shape %s for %s nodes is %s' % (shape, (M, N, P), 'accepted' if ok else 'refused'))
        ctx.outcome((M, N, P, shape, ok))


FIX = {1: [(1,), (3,), (4,)], 2: [(0, 1), (4, 2), (5, 3)], 3: [(0, 1, 2), (3, 0, 4), (5, 1, 2)], 4: [(0, 1, 2, 3), (4, 2, 5, 0), (3, 1, 5, 4)]}


def plan(tier):
    u = []
    top, na, nf = (4, 5, 3) if tier == 'thorough' else (3, 4, 2)
    for c in itertools.product(range(1, top+1), repeat=3):
        u.append(dict(kind='fix', c=list(c), nf=nf))
        for d in range(3):
            if c[d] <= 3:
                u.append(dict(kind='dir', c=list(c), d=d, na=na, nf=nf))
        if c[1] == c[2]:
            u.append(dict(kind='zy', c=list(c), na=na, nf=nf))
    u += [dict(kind='long', c=c) for c in itertools.product((1, 2, 3), repeat=3)]
    u += [dict(kind=kd, c=c) for kd in ('mix', 'simple', 'types', 'near') for c in itertools.product((1, 2, 3), repeat=3)]
    u += [dict(kind='many', c=c) for a in range(6, 10) for c in ((a, 1, 1), (1, a, 1), (1, 1, a), (2, a, 3), (a, 3, 2), (1, a, a), (3, 2, a))]
    u += [dict(kind='shapes', c=list(c)) for c in itertools.product((1, 2), repeat=3)]
    u += [dict(kind='shapes', c=[3, 2, 3]), dict(kind='shapes', c=[2, 3, 1])]
    return u


def run(unit, ctx):
    c = unit['c']
    if unit['kind'] == 'shapes':
        return shapes(ctx, *c)
    if unit['kind'] in EXTRA:
        return extra(ctx, I.lag3, unit, lambda nodes, cols: None if list(nodes[1]) == list(nodes[2]) else
                     defect_basis(nodes[2], nodes[1], cols[2]))
    if unit['kind'] == 'fix':
        it = itertools.product(*(FIX[k][:unit['nf']] for k in c))
    elif unit['kind'] == 'dir':
        lists = [FIX[k][:1] for k in c]
        lists[unit['d']] = selections(c[unit['d']], unit['na'])
        it = itertools.product(*lists)
    else:
        it = ((a, b, b) for a in FIX[c[0]][:unit['nf']] for b in selections(c[1], unit['na']) if c[1] < 4 or b < (2,))
    for q, sel in enumerate(it):
        for scale in sorted(SHIFT) if unit['kind'] == 'fix' and q % 3 == 0 else [sorted(SHIFT)[q % len(SHIFT)]]:
            s, t = SHIFT[scale]
            for form in FORMS if unit['kind'] == 'fix' and q == 0 and scale == 'plain' else [FORMS[q % len(FORMS)]]:
                if ctx.case(dict(sel=sel, scale=scale, form=form)):
                    ctx.state()
                    ctx.trans(sum(c))
                    verify(ctx, *[[s*ALPH[i] + t for i in w] for w in sel], form, q % 4 == 0)
