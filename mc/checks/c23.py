"""C23: messages go to the console only when not silenced and are always returned."""
import contextlib
import importlib
import io
import itertools
import os
import shutil
import tempfile
from types import SimpleNamespace

import numpy as np

from .. import common as cm, meshspace as ms, refmodel as rf
from ..impl import I

LEVEL = 'model_checking'
RULE = ('all messages x levels x silent values x ways to pass them for the logging functions; all sequences of quiet, default '
        'and loud calls up to the depth bound on reading and assembly functions, every output and result compared with '
        'those expected of the single call')
BOUNDS = {'quick': 'complete product for the 3 logging functions and all sequences of 2 of their calls; all sequences of 3 calls '
                   'out of 9 functions x {default, silent, loud} on one mesh, single and repeated calls on all states of 3 point sets',
          'thorough': 'as quick with sequences of 3 calls on 3 meshes and 7 point sets'}
ASSUMPTIONS = ['messages are strings', 'the announcement is at least one line before the properties or the triangles are '
               'first looked at and at least one line after the last look']

MSGS = ['', 'x', 'two words', 'a\nb', 'tab\tbed', '%s %d', '{0} {}', 'WARNING: w', 'ERROR: e', ' lead', 'trail ', '\u00e9\u03b1', 'trail\n', '\\n']
LEVELS = [0, 1, 2, 5]
SILENT = [False, True, 0, 1, None, np.bool_(True), np.bool_(False)]
PREFIX = {'msg': '', 'warn': 'WARNING: ', 'error': 'ERROR: '}


@contextlib.contextmanager
def console():
    o, e = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
        yield o, e


def log_calls():
    for fn in PREFIX:
        for m in MSGS:
            yield fn, (m,), {}, m, 0, False
            yield fn, (), {'msg': m}, m, 0, False
            for lev in LEVELS:
                yield fn, (m, lev), {}, m, lev, False
                for s in SILENT:
                    yield fn, (m, lev, s), {}, m, lev, s
                    yield fn, (m,), {'silent': s, 'level': lev}, m, lev, s
            for s in SILENT:
                yield fn, (m,), {'silent': s}, m, 0, s


def log_one(ctx, call):
    fn, args, kw, m, lev, s = call
    with console() as (o, e):
        r = getattr(I.logger, fn)(*args, **kw)
    ctx.trans()
    ctx.trace()
    want = PREFIX[fn] + m
    ctx.check(r == want and type(r) is str, '%s%s %s returns %r instead of %r' % (fn, args, kw, r, want))
    out = '' if s else '\t'*lev + want + '\n'
    ctx.check(o.getvalue() == out, '%s%s %s prints %r instead of %r' % (fn, args, kw, o.getvalue(), out))
    ctx.check(e.getvalue() == '', '%s writes to stderr' % fn)
    ctx.outcome((r, o.getvalue()))


# -------------------------------------------- reading and assembly

class Probe(object):
    """Looks like the wrapped object and records how much had been printed
    whenever one of its attributes was read."""

    def __init__(self, obj, log):
        object.__setattr__(self, '_o', obj)
        object.__setattr__(self, '_l', log)

    def __getattr__(self, name):
        self._l()
        return getattr(self._o, name)


class World(object):
    def __init__(self, m, tmp):
        self.m = m
        self.n = len(m['pts'])
        self.looks = []
        self.out = None
        self.pts = np.array(m['pts'], float)
        self.tri = Probe(SimpleNamespace(simplices=np.array(m['tris'])), self.look)
        self.mesh = ms.build(I, m)
        lams = [Probe(rf.generic(k), self.look) for k in range(3)]
        cm.assign(self.mesh, [lams[i % 3] for i in range(self.n)], [lams[(i+1) % 3] for i in range(len(m['tris']))])
        self.deck = os.path.join(tmp, 'deck.dat')
        with open(self.deck, 'w') as f:
            f.write('SOL 101\nCEND\nBEGIN BULK\nMAT1,1,71.+9,,.33\nPSHELL,1,1,.01\n')
            for i, p in enumerate(m['pts']):
                f.write('GRID,%d,,%.6f,%.6f,0.\n' % (i+1, p[0], p[1]))
            for i, t in enumerate(m['tris']):
                f.write('CTRIA3,%d,1,%d,%d,%d\n' % (i+1, t[0]+1, t[1]+1, t[2]+1))
            f.write('ENDDATA\n')
        I.calc_k0(self.mesh, True)
        self.d = rf.to_impl_vec(cm.dense_d(self.n), cm.index_of(self.mesh, self.n))

    def look(self):
        if self.out is not None:
            self.looks.append(self.out.getvalue().count('\n'))


def topology(mesh):
    return ([np.array(mesh.nodes[i].xyz) for i in sorted(mesh.nodes)] +
            [np.array([[n.nid for n in mesh.elements[i].nodes] for i in sorted(mesh.elements)]),
             np.array(sorted(sorted(e.node_ids) for e in mesh.edges.values()))])


def k0s(which):
    def f(w, **kw):
        mod = importlib.import_module('meshless.espim.plate2d_add_k0s_' + which)
        K = np.zeros((5*w.n, 5*w.n))
        mod.add_k0s(K, w.mesh, True, 0.08, False, **kw)
        return [K]
    return f


FUNCS = {
    'read_mesh': lambda w, **kw: topology(I.read_mesh(w.deck, **kw)),
    'read_delaunay': lambda w, **kw: topology(I.read_delaunay(w.pts, w.tri, **kw)),
    'k0 nodes': lambda w, **kw: [I.calc_k0(w.mesh, True, **kw)],
    'k0 elems': lambda w, **kw: [I.calc_k0(w.mesh, False, **kw)],
    'kG': lambda w, **kw: [I.calc_kG(w.d, w.mesh, True, **kw)],
    'k0s cell': k0s('cell_based'),
    'k0s nosm': k0s('cell_based_no_smoothing'),
    'k0s edge': k0s('edge_based'),
    'add_k0s': None,
}


def add_all(w):
    K = np.zeros((5*w.n, 5*w.n))
    for me in cm.METHODS:
        I.add_k0s(K, w.mesh, True, me)
    return [K]


FUNCS['add_k0s'] = add_all
MODES = {'default': {}, 'silent': {'silent': True}, 'loud': {'silent': False}}
CALLS = [(f, s) for f in sorted(FUNCS) for s in ('default', 'silent', 'loud') if f != 'add_k0s' or s == 'default']


def one(ctx, w, call, ref, when):
    f, mode = call
    w.looks = []
    with console() as (o, e):
        w.out = o
        r = FUNCS[f](w, **MODES[mode])
        w.out = None
    ctx.trans()
    ctx.trace()
    out = o.getvalue()
    ctx.check(e.getvalue() == '', '%s (%s) writes to stderr %s' % (f, mode, when))
    if mode == 'loud':
        lines = [l for l in out.split('\n') if l.strip()]
        ctx.check(len(lines) >= 2, '%s does not announce start and end %s: %r' % (f, when, out))
        if w.looks:
            ctx.check(min(w.looks) >= 1, '%s works before it announces its start %s' % (f, when))
            ctx.check(max(w.looks) < out.count('\n'), '%s works after it announced its end %s' % (f, when))
        if (f, 'text') in ref:
            ctx.check(out == ref[f, 'text'], '%s announces %r instead of %r %s' % (f, out, ref[f, 'text'], when))
        ref[f, 'text'] = out
    else:
        ctx.check(out == '', '%s (%s) prints %r %s' % (f, mode, out, when))
    r = [np.array(a) for a in r]
    if f in ref:
        ctx.check(len(r) == len(ref[f]) and all(np.array_equal(a, b) for a, b in zip(r, ref[f])),
                  '%s (%s) gives another result %s' % (f, mode, when))
    ref.setdefault(f, r)


def plan(tier):
    u = [dict(kind='log'), dict(kind='logseq')]
    meshes = [('kite', -1)] if tier == 'quick' else [('kite', -1), ('dart', -1), ('quad_c', -2)]
    u += [dict(kind='seq', ps=ps, k=k, pre=p) for ps, k in meshes for p in range(len(CALLS))]
    for ps in ('tri', 'quad', 'quad_c') if tier == 'quick' else cm.SMALL:
        n = len(ms.families(ps)[0])
        u += [dict(kind='all', ps=ps, lo=a, hi=b) for a, b in cm.chunks(n, 12)]
    return u


def run(unit, ctx):
    tmp = tempfile.mkdtemp(prefix='mc_c23_')
    try:
        _run(unit, ctx, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _run(unit, ctx, tmp):
    k = unit['kind']
    if k == 'log':
        for c in log_calls():
            if ctx.case(dict(fn=c[0], args=repr(c[1]), kw=repr(c[2]))):
                ctx.state()
                log_one(ctx, c)
    elif k == 'logseq':
        some = [c for c in log_calls() if c[3] in ('x', 'a\nb') and c[4] in (0, 2)]
        for a, b in itertools.product(some, repeat=2):
            if ctx.case(dict(fn=(a[0], b[0]), args=repr((a[1], b[1])), kw=repr((a[2], b[2])))):
                ctx.state()
                log_one(ctx, a)
                log_one(ctx, b)
    elif k == 'seq':
        m = ms.desc(unit['ps'], ms.families(unit['ps'])[0][unit['k']], 'skew', 0.0, 1)
        w = World(m, tmp)
        ref = {}
        pool = [c for c in CALLS if 'read_mesh' not in c or c[1] == 'loud' or unit['pre'] % 5 == 0]
        for rest in itertools.product(pool, repeat=2):
            seq = (CALLS[unit['pre']],) + rest
            if not ctx.case(dict(seq=seq, ps=unit['ps'])):
                continue
            ctx.state()
            for q, c in enumerate(seq):
                one(ctx, w, c, ref, 'after %s' % (seq[:q],))
            ctx.outcome(seq)
    else:
        for q in range(unit['lo'], unit['hi']):
            m = ms.desc(unit['ps'], ms.families(unit['ps'])[0][q], cm.MAPNAMES[q % 9], 0.0, q % 12)
            if not ctx.case(dict(ps=unit['ps'], k=q)):
                continue
            ctx.state()
            w = World(m, tmp)
            ref = {}
            for c in CALLS:
                for rep in range(2):
                    one(ctx, w, c, ref, 'on mesh %d, call %d' % (q, rep))
            ctx.outcome(q)
