"""C18: the dense and sparse printers emit code that rebuilds the matrix."""
import itertools
import os
import re
import shutil
import tempfile

from ..exprs import Evaluator, expandable_powers
from ..impl import I

LEVEL = 'model_checking'
RULE = ('all matrix shapes and zero patterns up to the bound x all combinations of options; the emitted text is executed '
        'by an exact interpreter of its statements and compared with the matrix')
BOUNDS = {
    'quick': 'all zero patterns of all shapes with at most 4 entries, diagonal, band, full and empty patterns of all shapes '
             'up to 4 x 4 and 6 x 6, 1 x 12, 12 x 1, 10 x 10, 20 x 20, 3 x 36, 40 x 2; complete product of header, suffix, substitution, power, collection, '
             'file, blocking (none, 1, 2, 3, 5) and symmetry options; '
             'all histories of up to 3 printing calls in one directory; 19 entries which need all their digits; substitution of 13 kinds of expressions by 13 values, as objects and text',
    'thorough': 'as quick with all zero patterns of all shapes with at most 9 entries and the complete product of options '
                'on ten patterns of each of five shapes',
}
ASSUMPTIONS = ['symbols of the matrix are no names of the emitted code (c, row, col, dof, i1.., the matrix name)',
               'the collected form announces one target and lists expressions to be added (it is no executable statement)']

ENTRIES = ['x', 'y**2', '-3*x + 2', 'x*y**3/7', '(x + y)**2', 'sin(x)**2', 'sqrt(y)', 'Rational(1, 3)', 'x**10*y', '2.5*x**2',
           '1/(x + 1)**2', '-x', '5', 'x**(y + 2)', 'pi*x', 'x**Rational(3, 2)*(y - 1)**3', 'cos(x*y)*(x + y)**2', 'y/x**2']
NAMES = ['A', 'k0', 'kG_p']
SUBS = [None, {}, {'x': 't'}, {'x': 't', 'y': 'u1'}, {'y': 0}, {'x': 't**2 + 1'}]
HEADERS = [None, '', '# some header', 'for i in range(n):']
_ent = {}


def entry(k):
    import sympy
    k %= len(ENTRIES)
    if k not in _ent:
        _ent[k] = sympy.sympify(ENTRIES[k])
    return _ent[k]


def matrix(r, c, pat, k, cls='Matrix'):
    """pat: bit mask in row-major order."""
    import sympy
    es = [entry(k + 5*n + n//3) if pat >> n & 1 else sympy.Integer(0) for n in range(r*c)]
    return getattr(sympy, cls)(r, c, es)


def cells(m):
    r, c = m.shape
    return {(i, j): m[i, j] for i in range(r) for j in range(c)}


class Malformed(Exception):
    pass


def split(text, name):
    """(lines before the announcement of the matrix, announced number, code)."""
    lines = text.split('\n')
    at = [k for k, l in enumerate(lines) if l.strip() == '# ' + name]
    nums = [k for k, l in enumerate(lines) if re.match(r'#\s*%s_num\s*=\s*\d+\s*$' % re.escape(name), l.strip())]
    if len(at) != 1 or len(nums) != 1:
        raise Malformed('name or number of terms not announced once')
    last = max(at[0], nums[0])
    return lines[:min(at[0], nums[0])] + lines[min(at[0], nums[0])+1:last], int(lines[nums[0]].split('=')[1]), lines[last+1:]


def index(ev, s, dofpernode, axis, name):
    """Index text -> global index.  Inside the emitted code node number k has
    the variable i<k>; row/col are the position of the first entry."""
    v = ev.text(s)
    if v == 'undefined' or v.denominator != 1:
        raise Malformed('index %r' % s)
    return int(v)


OFF = {'row': 1000, 'col': 5000, 'dof': 0}


def interp(code, mname, fmt, dofpernode, shape):
    """Executes the emitted lines: list of (row, col, [expressions])."""
    env = {'row': OFF['row'], 'col': OFF['col']}
    if dofpernode:
        env['dof'] = 997*dofpernode
        for k in range(1, max(shape) + 2):
            env['i%d' % k] = k*k + 3*k
    from fractions import Fraction as F
    ev = Evaluator({k: F(v) for k, v in env.items()})

    def dec(s, axis):
        v = index(ev, s, dofpernode, axis, mname)
        if not dofpernode:
            if fmt == 'sparse':
                v -= OFF[axis]
            return v
        for k in range(1, max(shape) + 2):
            for d in range(dofpernode):
                if v == (k*k + 3*k)*997*dofpernode + d:
                    return (k-1)*dofpernode + d
        raise Malformed('index %r is no dof of a node' % s)
    out = []
    state = None
    coll = None
    c = 0
    for l in code:
        if not l.strip():
            continue
        if l.lstrip().startswith('#'):
            if coll is None:
                raise Malformed('unexpected comment %r' % l)
            continue
        if fmt == 'sparse':
            m1 = re.match(r'c\s*\+=\s*1\s*$', l)
            m2 = re.match(r'%s([rc])\[c\]\s*=\s*(.+)$' % re.escape(mname), l)
            m3 = re.match(r'%sv\[c\]\s*\+=(.*)$' % re.escape(mname), l)
            if m1:
                c += 1
                state = {}
                coll = None
                continue
            if m2:
                if state is None or m2.group(1) in state:
                    raise Malformed('index written twice or without a new term: %r' % l)
                state[m2.group(1)] = dec(m2.group(2), 'row' if m2.group(1) == 'r' else 'col')
                continue
            if m3:
                if not state or set(state) != {'r', 'c'}:
                    raise Malformed('value without row and column: %r' % l)
                ex = [m3.group(1).strip()] if m3.group(1).strip() else []
                coll = None if ex else []
                out.append((state['r'], state['c'], ex if ex else coll))
                state = None
                continue
        else:
            m4 = re.match(r'%s\[(.+?),\s*(.+?)\]\s*\+=(.*)$' % re.escape(mname), l)
            if m4:
                ex = [m4.group(3).strip()] if m4.group(3).strip() else []
                coll = None if ex else []
                out.append((dec(m4.group(1), 'row'), dec(m4.group(2), 'col'), ex if ex else coll))
                continue
        if coll is not None and l.startswith(' '):
            coll.append(l.strip())
            continue
        raise Malformed('unexpected line %r' % l)
    if state is not None:
        raise Malformed('term without a value')
    return out


def options(fmt):
    base = dict(header=HEADERS, subs=range(len(SUBS)), pow_by_mul=[True, False], collect=[None, ('x',), ('x', 'y')],
                print_file=[True, False], dofpernode=[None, 1, 2, 3, 5])
    if fmt == 'sparse':
        base.update(sufix=[None, 's', 'v2'], is_symmetric=[False, True, None])
    return base


def combos(fmt):
    o = options(fmt)
    keys = sorted(o)
    return [dict(zip(keys, v)) for v in itertools.product(*[o[k] for k in keys])]


def tosym(v):
    import sympy
    return sympy.sympify(v)


VALUES = ['1', '0', '-1', '2', '1/2', '5/2', 't', 'y', '1/x', 'x**2', '-t', 't**3 + 1', '1/(x**2*y)']
KEYS = ['x', 'y', 'x*y', 'x**2', 'y**2', 'x + y', 'sin(x)', 'sqrt(y)', 'x*y**3', 'pi', 'x**10', 'x + 1', '1/x']


def tables():
    """substitutions: every key by every value, as objects and as text; two keys at once"""
    out = [({k: v}, how) for k in KEYS for v in VALUES for how in ('sym', 'str')]
    out += [({'x': a, 'y': b}, how) for a in VALUES[:7] for b in VALUES[:7] for how in ('sym', 'str')]
    # tables of two keys which have terms in common, in both orders
    for a in KEYS:
        for b in KEYS:
            if a != b:
                out += [({a: 't', b: 'q'}, 'sym'), ({a: b, b: 't'}, 'sym'), ({a: 'y', b: 'x'}, 'sym' if len(a) < 4 else 'str')]
    out += [({'x*y': 't', 'sin(x)': '1'}, 'sym'), ({'x': 't', 'q': '1'}, 'sym'), ({'q': 'x'}, 'str')]
    return out


# numbers which need all their digits, none with more than a printed float has
NUMBERS = ['1.23456789', '0.1', '-987654.321', '1.5e-7', '-2.25e20', '0.000123456789012', '123456789012345678901', '-1234567/7654321', '1e-300',
           '1.23456789*x', 'x**2/3 + 0.123456789012*y', '-123456789.5*x*y**3', '7/1000003*x', '(x + 1.0000001)**2', '1e16*y + 1', '2**70*x',
           '3.0', '-1.0*x', '0.5*x**3']


def judge(ctx, m, mname, fmt, opt, tmp, subs=None):
    import sympy
    if subs is None:
        subs = SUBS[opt['subs']]
        subs = None if subs is None else {sympy.Symbol(k): tosym(v) for k, v in subs.items()}
    coll = None if opt['collect'] is None else [sympy.Symbol(s) for s in opt['collect']]
    kw = dict(header=opt['header'], subs=subs, pow_by_mul=opt['pow_by_mul'], collect_for=coll,
              print_file=opt['print_file'], dofpernode=opt['dofpernode'])
    name = mname
    if fmt == 'sparse':
        kw.update(sufix=opt['sufix'], is_symmetric=opt['is_symmetric'])
        if opt['sufix'] is not None:
            name = '%s_%s' % (mname, opt['sufix'])
    fn = I.sy.mprint_as_sparse if fmt == 'sparse' else I.sy.mprint_as_dense
    os.chdir(tmp)
    before = set(os.listdir('.'))
    text = fn(m, mname, **kw)
    ctx.trace()
    new = sorted(set(os.listdir('.')) - before)
    if opt['print_file']:
        ctx.check(len(new) == 1 and mname in new[0] and open(new[0]).read() == text, 'no file with the same text was written (%s)' % new)
        if fmt == 'sparse' and opt['sufix']:
            ctx.check(len(new) == 1 and opt['sufix'] in new[0].replace(mname, ''), 'the suffix does not appear in the file name %s' % new)
    else:
        ctx.check(not new, 'a file was written although it was not requested: %s' % new)
    for f in new:
        os.remove(f)
    try:
        head, num, code = split(text, name)
        terms = interp(code, mname, fmt, opt['dofpernode'], m.shape)
    except Malformed as e:
        return ctx.fail('emitted code: %s' % e, text=text)
    if opt['header']:
        ctx.check(opt['header'] in head, 'the header is not printed', text=text)
    ctx.check(num == len(terms), '%d terms announced, %d printed' % (num, len(terms)), text=text)
    at = [(i, j) for i, j, _ in terms]
    ctx.check(len(set(at)) == len(at), 'a term is printed twice', text=text)
    want = {}
    ev = Evaluator()
    for (i, j), v in cells(m).items():
        if v != 0 and not (fmt == 'sparse' and opt['is_symmetric'] and i > j):
            try:
                want[i, j] = ev.sympy(v.subs(subs) if subs else v)
            except TypeError:       # a value that is no real number
                return ctx.count('undefined')
    got = {}
    for i, j, ex in terms:
        vals = [ev.text(e) for e in ex]
        got[i, j] = got.get((i, j), 0) + sum(vals)
        if opt['collect'] is None and opt['pow_by_mul']:
            left = [p for e in ex for p in expandable_powers(e)]
            ctx.check(not left, 'powers are not expanded: %s' % left, text=text)
    if 'undefined' in list(want.values()) + list(got.values()):
        return ctx.count('undefined')
    bad = sorted(k for k in set(want) | set(got) if want.get(k, 0) != got.get(k, 0))
    ctx.check(not bad, 'wrong value at %s' % bad[:4], text=text)
    ctx.check(all(want.get(k, 0) != 0 or k in want for k in got), 'a zero term is printed', text=text)
    ctx.outcome((text, len(new)))


def patterns(r, c, maxfull):
    n = r*c
    if n <= maxfull:
        return list(range(1 << n))
    out = [(1 << n) - 1, 0, sum(1 << (i*c + i) for i in range(min(r, c))),
           sum(1 << (i*c + j) for i in range(r) for j in range(c) if abs(i-j) <= 1),
           sum(1 << (i*c + j) for i in range(r) for j in range(c) if i > j),
           sum(1 << (i*c + j) for i in range(r) for j in range(c) if (i+j) % 2),
           1 << (n-1), 1, 1 << (c-1), sum(1 << k for k in range(n) if k % 3 != 1)]
    return list(dict.fromkeys(out))


SHAPES = [(r, c) for r in range(1, 5) for c in range(1, 5)] + [(6, 6), (1, 12), (12, 1), (5, 3), (2, 7), (10, 10), (20, 20), (3, 36), (40, 2)]


def file_histories(ctx, fn, sufixes, tmp, depth):
    """Every history of printing calls in one directory: a model directory says which file holds which text."""
    m = {k: matrix(*rc, (1 << rc[0]*rc[1]) - 1, k) for k, rc in enumerate([(1, 1), (2, 2), (4, 3)])}
    ops = [(k, nm, sx, pf) for k in m for nm in ('A', 'k0') for sx in sufixes for pf in (True, False)
           if pf or (k, nm, sx) == (1, 'A', None)]
    if depth > 2:
        ops = [o for o in ops if o[0] != 1 or not o[3]]
    named = {}
    for hist in itertools.product(range(len(ops)), repeat=depth):
        ctx.trans()
        if not ctx.case(dict(history=[ops[q] for q in hist])):
            continue
        ctx.state()
        model = {}
        for f in os.listdir(tmp):
            os.remove(os.path.join(tmp, f))
        os.chdir(tmp)
        for q in hist:
            k, nm, sx, pf = ops[q]
            kw = {} if sx is None else dict(sufix=sx)
            text = fn(m[k], nm, print_file=pf, **kw)
            ctx.trace()
            if pf:
                new = sorted(set(os.listdir('.')) - set(model))
                if (nm, sx) not in named:
                    if not ctx.check(len(new) == 1, 'no single file is written: %s' % new):
                        return
                    named[nm, sx] = new[0]
                model[named[nm, sx]] = text
            got = {}
            for f in os.listdir('.'):
                with open(f) as fh:
                    got[f] = fh.read()
            if not ctx.check(got == model, 'after %s the files %s do not hold the printed texts' % ([ops[v] for v in hist], sorted(got))):
                return
        ctx.outcome(tuple(sorted(model)))
    ctx.check(len(set(named.values())) == len(named), 'different matrices or suffixes share a file: %s' % named)


def plan(tier):
    u = []
    full = 4 if tier == 'quick' else 9
    for fmt in ('dense', 'sparse'):
        # complete product of options on a few matrices
        for r, c in [(1, 1), (2, 2), (3, 2), (4, 4), (3, 3)]:
            parts = 2 if fmt == 'dense' else 6
            for rep in range(1 if tier == 'quick' else 10):
                u += [dict(kind='options', fmt=fmt, r=r, c=c, part=p, parts=parts, rep=rep) for p in range(parts)]
        # complete patterns, options rotated with the position in the enumeration and each of them visited
        for r, c in SHAPES:
            n = len(patterns(r, c, full))
            for lo in range(0, n, 64):
                u.append(dict(kind='patterns', fmt=fmt, r=r, c=c, full=full, lo=lo, hi=min(n, lo+64)))
        u += [dict(kind='twice', fmt=fmt), dict(kind='numbers', fmt=fmt)]
        u += [dict(kind='files', fmt=fmt, depth=d) for d in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4))]
        u += [dict(kind='tables', fmt=fmt, lo=lo, hi=min(len(tables()), lo+30)) for lo in range(0, len(tables()), 30)]
    return u


def run(unit, ctx):
    tmp = tempfile.mkdtemp(prefix='mc_c18_')
    cwd = os.getcwd()
    try:
        _run(unit, ctx, tmp)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


CLASSES = ['Matrix', 'ImmutableMatrix', 'Matrix', 'SparseMatrix']


def _run(unit, ctx, tmp):
    fmt = unit['fmt']
    cs = combos(fmt)
    if unit['kind'] == 'options':
        r, c = unit['r'], unit['c']
        for q, opt in enumerate(cs):
            if q % unit['parts'] != unit['part']:
                continue
            ctx.trans()
            pat = patterns(r, c, 0)[((0, 3, 9, 5)[q % 4] + unit['rep']) % len(patterns(r, c, 0))] | (unit['rep'] == 0)
            desc = dict(fmt=fmt, r=r, c=c, pat=pat, k=q, opt=opt, rep=unit['rep'])
            if ctx.case(desc):
                ctx.state()
                judge(ctx, matrix(r, c, pat, q, CLASSES[q % 4 if q % 3 == 0 else 0]), NAMES[q % 3], fmt, opt, tmp)
        return
    if unit['kind'] == 'patterns':
        r, c = unit['r'], unit['c']
        pats = patterns(r, c, unit['full'])
        plain = dict(header=None, subs=0, pow_by_mul=True, collect=None, print_file=False, dofpernode=None, sufix=None, is_symmetric=False)
        keys = [dict(plain), dict(plain, is_symmetric=True), dict(plain, dofpernode=2), dict(plain, dofpernode=3, is_symmetric=True),
                dict(plain, dofpernode=5, subs=2), dict(plain, pow_by_mul=False, subs=3, header=HEADERS[2])]
        for q in range(unit['lo'], unit['hi']):
            todo = list(enumerate(keys)) + [(6 + s, cs[(q*31 + s*977) % len(cs)]) for s in range(2)]
            for s, opt in todo:
                ctx.trans()
                if ctx.case(dict(fmt=fmt, r=r, c=c, pat=pats[q], k=q + s, opt=opt)):
                    ctx.state()
                    judge(ctx, matrix(r, c, pats[q], q + s, CLASSES[(q + s) % 4 if s % 3 == 0 else 0]), NAMES[(q+s) % 3], fmt, opt, tmp)
        return
    if unit['kind'] == 'tables':
        import sympy
        base = dict(header=None, subs=0, pow_by_mul=True, collect=None, print_file=False, dofpernode=None, sufix=None, is_symmetric=False)
        for q in range(unit['lo'], unit['hi']):
            t, how = tables()[q]
            if how == 'sym':
                t = {tosym(k): tosym(v) for k, v in t.items()}
            for w, (r, c) in enumerate([(4, 4), (1, 2), (2, 2)]):
                opt = dict(base, dofpernode=[None, None, 2][w], pow_by_mul=(q + w) % 4 != 0)
                ctx.trans()
                if ctx.case(dict(fmt=fmt, table={str(k): str(v) for k, v in t.items()}, how=how, r=r, c=c)):
                    ctx.state()
                    judge(ctx, matrix(r, c, (1 << r*c) - 1, 0 if w == 0 else q), 'A', fmt, opt, tmp, t)
        return
    if unit['kind'] == 'files':
        return file_histories(ctx, I.sy.mprint_as_sparse if fmt == 'sparse' else I.sy.mprint_as_dense,
                              (None, 's') if fmt == 'sparse' else (None,), tmp, unit['depth'])
    if unit['kind'] == 'numbers':
        import sympy
        base = dict(header=None, subs=0, pow_by_mul=True, collect=None, print_file=False, dofpernode=None, sufix=None, is_symmetric=False)
        es = [tosym(e) for e in NUMBERS]
        for k, (pw, sy, dof) in itertools.product(range(len(es)), itertools.product((True, False), (False, True), (None, 2))):
            for r in (1, 2, 3):
                ctx.trans()
                if ctx.case(dict(fmt=fmt, number=NUMBERS[k], pw=pw, sy=sy, dof=dof, r=r)):
                    ctx.state()
                    m = sympy.Matrix(r, r, [es[(k + 3*q) % len(es)] for q in range(r*r)])
                    judge(ctx, m, 'A', fmt, dict(base, pow_by_mul=pw, is_symmetric=sy, dofpernode=dof), tmp)
        return
    # every ordered pair of calls on one matrix object: the second is not influenced by the first
    plain = dict(header=None, subs=0, pow_by_mul=True, collect=None, print_file=False, dofpernode=None, sufix=None, is_symmetric=False)
    alt = [dict(plain), dict(plain, dofpernode=2), dict(plain, subs=3), dict(plain, collect=('x',)), dict(plain, pow_by_mul=False),
           dict(plain, is_symmetric=True), dict(plain, header=HEADERS[3]), dict(plain, print_file=True)]
    for a, b in itertools.product(range(len(alt)), repeat=2):
        m = matrix(4, 4, 0xffff, 3*a + b)
        ctx.trans(2)
        if ctx.case(dict(fmt=fmt, first=a, second=b)):
            ctx.state()
            judge(ctx, m, 'A', fmt, alt[a], tmp)
            judge(ctx, m, 'A', fmt, alt[b], tmp)
