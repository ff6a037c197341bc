"""C19: the array printer emits code that rebuilds the flattened matrix."""
import itertools
import os
import re
import shutil
import tempfile

from ..exprs import Evaluator, expandable_powers
from ..impl import I
from . import c18

LEVEL = 'model_checking'
RULE = ('all matrix shapes and zero patterns up to the bound x all combinations of options; the emitted text (declarations, '
        'temporaries and terms) is executed by an exact interpreter and compared with the matrix')
BOUNDS = {
    'quick': 'all zero patterns of all shapes with at most 4 entries and structured patterns of all shapes up to 4 x 4, 6 x 6, '
             '1 x 12, 12 x 1, 10 x 10, 20 x 20, 3 x 36, 40 x 2; complete product of elimination, order, operator, power, header, suffix, collection '
             'and file options; all histories of up to 3 printing calls in one directory; matrices with every number of temporaries from 0 to 40',
    'thorough': 'as quick with all zero patterns of all shapes with at most 9 entries and the complete product of options '
                'on ten patterns of each of five shapes',
}
ASSUMPTIONS = ['symbols of the matrix are no names of the emitted code (pos, the matrix name)',
               'the collected form announces one target and lists expressions to be combined (it is no executable statement)',
               'the elimination is requested for sympy matrices (sympy.cse handles nothing else)']


def options():
    base = dict(use_cse=[False, True], order=['C', 'F'], op=['+=', '=', '-='], pow_by_mul=[True, False], header=c18.HEADERS,
                sufix=[None, 's', 'v2'], collect=[None, ('x',), ('x', 'y')], print_file=[True, False])
    keys = sorted(base)
    return [dict(zip(keys, v)) for v in itertools.product(*[base[k] for k in keys])]


def judge(ctx, m, mname, opt, tmp):
    import sympy
    coll = None if opt['collect'] is None else [sympy.Symbol(s) for s in opt['collect']]
    name = mname if opt['sufix'] is None else '%s_%s' % (mname, opt['sufix'])
    os.chdir(tmp)
    before = set(os.listdir('.'))
    cells = c18.cells(m)
    r, c = m.shape
    text = I.sy.mprint_as_array(m, mname, sufix=opt['sufix'], use_cse=opt['use_cse'], header=opt['header'],
                                print_file=opt['print_file'], collect_for=coll, pow_by_mul=opt['pow_by_mul'],
                                order=opt['order'], op=opt['op'])
    ctx.trace()
    new = sorted(set(os.listdir('.')) - before)
    if opt['print_file']:
        ctx.check(len(new) == 1 and mname in new[0] and open(new[0]).read() == text, 'no file with the same text was written (%s)' % new)
        if opt['sufix']:
            ctx.check(len(new) == 1 and opt['sufix'] in new[0].replace(mname, ''), 'the suffix does not appear in the file name %s' % new)
    else:
        ctx.check(not new, 'a file was written although it was not requested: %s' % new)
    for f in new:
        os.remove(f)
    try:
        head, num, code = c18.split(text, name)
    except c18.Malformed as e:
        return ctx.fail('emitted code: %s' % e, text=text)
    if opt['header']:
        ctx.check(opt['header'] in head, 'the header is not printed', text=text)
        head = [l for l in head if l != opt['header']]
    # declarations and temporaries
    defined = {}
    declared = []

    class Ev(Evaluator):
        def name(self, n):
            if n in defined:
                return defined[n]
            if n in declared:
                raise KeyError('%s is used before it is assigned' % n)
            return Evaluator.name(self, n)
    ev = Ev()
    own = {s.name for v in cells.values() for s in v.free_symbols}
    try:
        for l in head:
            md = re.match(r'cdef\s+double\s+(.+)$', l)
            ma = re.match(r'(\w+)\s*=\s*(.+)$', l)
            if md:
                declared += [s.strip() for s in md.group(1).split(',')]
            elif ma:
                n = ma.group(1)
                ctx.check(n in declared, 'temporary %s is assigned but not declared' % n, text=text)
                ctx.check(n not in defined, 'temporary %s is assigned twice' % n, text=text)
                defined[n] = ev.text(ma.group(2))
            elif l.strip() and not l.startswith('#'):
                return ctx.fail('unexpected line %r' % l, text=text)
        ctx.check(len(set(declared)) == len(declared), 'a temporary is declared twice', text=text)
        ctx.check(set(declared) == set(defined), 'declared but not assigned: %s' % sorted(set(declared) - set(defined)), text=text)
        ctx.check(not own & set(declared), 'temporaries hide symbols of the matrix: %s' % sorted(own & set(declared)), text=text)
        if not opt['use_cse']:
            ctx.check(not declared, 'temporaries without common subexpression elimination', text=text)
        terms, cur = [], None
        for l in code:
            if not l.strip():
                continue
            mt = re.match(r'%s\[pos\s*\+\s*(\d+)\]\s*(\S*=)(.*)$' % re.escape(mname), l)
            if mt:
                cur = [int(mt.group(1)), mt.group(2), [mt.group(3).strip()] if mt.group(3).strip() else []]
                terms.append(cur)
            elif cur is not None and not l.startswith('#') and l.startswith(' ') and coll is not None:
                cur[2].append(l.strip())
            elif not (l.startswith('#') and coll is not None):
                return ctx.fail('unexpected line %r' % l, text=text)
        ctx.check(num == len(terms), '%d terms announced, %d printed' % (num, len(terms)), text=text)
        want = {}
        ref = Evaluator()
        for (i, j), v in cells.items():
            if v != 0:
                want[i*c + j if opt['order'] == 'C' else j*r + i] = ref.sympy(v)
        ctx.check([t[0] for t in terms] and len({t[0] for t in terms}) == len(terms) or not terms, 'a term is printed twice', text=text)
        for p, op, ex in terms:
            ctx.check(op == opt['op'], 'operator %s instead of %s' % (op, opt['op']), text=text)
            got = sum(ev.text(e) for e in ex)
            ctx.check(got == want.get(p, 0), 'wrong value at position %d' % p, text=text)
            if coll is None and opt['pow_by_mul']:
                left = [q for e in ex for q in expandable_powers(e)]
                ctx.check(not left, 'powers are not expanded: %s' % left, text=text)
        ctx.check({t[0] for t in terms} == set(want), 'positions %s instead of %s' % (
            sorted(t[0] for t in terms)[:6], sorted(want)[:6]), text=text)
    except (KeyError, SyntaxError) as e:
        ctx.fail('emitted code: %s' % e, text=text)
    ctx.outcome((text, len(new)))
    return len(declared)


def many_temporaries(k):
    """A matrix with about k common subexpressions, some nested, some named like temporaries."""
    import sympy
    x = sympy.Symbol('x')
    es = []
    for n in range(k):
        s = sympy.sin(x + n + 1) + sympy.Symbol('x%d' % (n % 4))
        es += [s**2 + n, 3*s - sympy.Symbol('y')**(n % 3 + 2)]
    es += [sympy.Symbol('x0')*x, sympy.Integer(0)]
    if len(es) % 2:
        es.append(x)
    return sympy.Matrix(2, len(es)//2, es)


def plan(tier):
    u = []
    full = 4 if tier == 'quick' else 9
    for r, c in [(1, 1), (2, 2), (3, 2), (2, 3), (4, 4)]:
        u += [dict(kind='options', r=r, c=c, part=p, parts=3, rep=e) for p in range(3) for e in range(1 if tier == 'quick' else 10)]
    for r, c in c18.SHAPES:
        n = len(c18.patterns(r, c, full))
        for lo in range(0, n, 64):
            u.append(dict(kind='patterns', r=r, c=c, full=full, lo=lo, hi=min(n, lo+64)))
    u += [dict(kind='temps', k=k) for k in range(0, 21 if tier == 'quick' else 41)]
    u += [dict(kind='twice')] + [dict(kind='files', depth=d) for d in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4))]
    return u


def run(unit, ctx):
    tmp = tempfile.mkdtemp(prefix='mc_c19_')
    cwd = os.getcwd()
    try:
        _run(unit, ctx, tmp)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


PLAIN = dict(use_cse=False, order='C', op='+=', pow_by_mul=True, header=None, sufix=None, collect=None, print_file=False)


def _run(unit, ctx, tmp):
    cs = options()
    kind = unit['kind']
    if kind == 'files':
        c18.file_histories(ctx, I.sy.mprint_as_array, (None, 's'), tmp, unit['depth'])
    elif kind == 'options':
        r, c = unit['r'], unit['c']
        pats = c18.patterns(r, c, 0)
        for q, opt in enumerate(cs):
            if q % unit['parts'] != unit['part']:
                continue
            ctx.trans()
            pat = pats[((0, 3, 9, 5)[q % 4] + unit['rep']) % len(pats)] | (unit['rep'] == 0)
            if ctx.case(dict(r=r, c=c, pat=pat, k=q, opt=opt, rep=unit['rep'])):
                ctx.state()
                judge(ctx, c18.matrix(r, c, pat, q, ['Matrix', 'ImmutableMatrix'][q % 5 == 0]), c18.NAMES[q % 3], opt, tmp)
    elif kind == 'patterns':
        r, c = unit['r'], unit['c']
        pats = c18.patterns(r, c, unit['full'])
        keys = [PLAIN, dict(PLAIN, order='F'), dict(PLAIN, order='F', use_cse=True, op='='), dict(PLAIN, use_cse=True)]
        for q in range(unit['lo'], unit['hi']):
            for s, opt in list(enumerate(keys)) + [(6 + s, cs[(q*31 + s*977) % len(cs)]) for s in range(2)]:
                ctx.trans()
                if ctx.case(dict(r=r, c=c, pat=pats[q], k=q + s, opt=opt)):
                    ctx.state()
                    judge(ctx, c18.matrix(r, c, pats[q], q + s), c18.NAMES[(q+s) % 3], opt, tmp)
    elif kind == 'temps':
        for order, op, pw, header, sufix in itertools.product('CF', ('+=', '='), (True, False), c18.HEADERS[1:3], (None, 's')):
            opt = dict(PLAIN, use_cse=True, order=order, op=op, pow_by_mul=pw, header=header, sufix=sufix)
            ctx.trans()
            if ctx.case(dict(temps=unit['k'], opt=opt)):
                ctx.state()
                n = judge(ctx, many_temporaries(unit['k']), 'A', opt, tmp)
                ctx.count('temporaries', n or 0)
    else:
        alt = [dict(PLAIN), dict(PLAIN, use_cse=True), dict(PLAIN, order='F'), dict(PLAIN, op='-='), dict(PLAIN, pow_by_mul=False),
               dict(PLAIN, collect=('x',)), dict(PLAIN, print_file=True), dict(PLAIN, use_cse=True, order='F')]
        for a, b in itertools.product(range(len(alt)), repeat=2):
            m = c18.matrix(4, 4, 0xffff, 3*a + b)
            ctx.trans(2)
            if ctx.case(dict(first=a, second=b)):
                ctx.state()
                judge(ctx, m, 'A', alt[a], tmp)
                judge(ctx, m, 'A', alt[b], tmp)
