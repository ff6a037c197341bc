"""C17: power expansion never changes the value of an expression."""
import itertools

from ..exprs import Evaluator, expandable_powers
from ..impl import I

LEVEL = 'model_checking'
RULE = ('all sentences of a grammar of arithmetic text up to a derivation depth; the expanded text is evaluated exactly '
        '(rationals, uninterpreted functions) under three valuations and compared with the input')
BOUNDS = {
    'quick': 'every base x exponent x notation (41 bases, 18 exponents, 9 notations) in 22 contexts (7 of them with leading, trailing or inner white space); all sentences of the '
             'core grammar (2 atoms, 9 unary and 4 binary productions) of depth 2 and all their one-step extensions; all '
             'ordered pairs of 120 power terms; chains of two and three of 24 numbers and 7 terms with 8 operators; the expansion is applied once and twice',
    'thorough': 'as quick with 3 atoms and 12 unary productions in the core grammar, two-step extensions and all triples '
                'of power terms',
}
ASSUMPTIONS = ['well-formed arithmetic text in Python/C notation (names, numbers, + - * / **, calls, items, attributes)',
               'functions are uninterpreted; integer powers beyond 64 are uninterpreted functions of base and exponent']

BASES = ['x', 'x1', '_b', 'Ab_3', 'e2', 'e', 'E1', 'powx', 'pow', 'xpow', '2', '10', '1.5', '.5', '2.', '1e-5',
         '1e5', '1E+3', '2.5e3', 'x.y', 'x.y.z2', 'x[0]', 'x[i1]', '(x)', '( x + 1 )', '(x+y)', '((x))',
         '((x + 1)*(y - 2))', '(-x)', '(2)', '(x**2)', '(x*(y + 1)**2)', '(sin(x))', 'sin(x)', 'f (x)', 'f.g(x)',
         'f(x)(y)', 'f(x)[2]', 'mypow(x, 2)', 'pow(x, 2)', 'pow (y,n)', 'atan2(x, y**2)', 'powers(x)']
EXPS = ['1', '2', '3', '0', '7', '11', '30', '-2', '+2', '0.5', '2.', '1e1', 'n', 'n2', '(2)', '(n + 1)', '(-1)', 'f(2)', '2**2', 'x.y']
NOTES = ['{b}**{e}', '{b} ** {e}', '{b}** {e}', '{b} **{e}', '{b}\t**  {e}', 'pow({b},{e})', 'pow({b}, {e})', 'pow( {b} , {e} )', 'pow ({b}, {e})']
CONTEXTS = ['{}', '-{}', '1/{}', 'a*{}', '{}*a', 'a-{}', '{} + a', '({})', '( {} )', 'cos({})', 'a[{}]', '{}/{}', '2*{}-{}',
            'a/({} + 3)/b', 'hypot({}, {})', '  {} + b', '\t{}', '\n{}*c', '{}  ', '{}\n', ' ({}\n + {}) ',
            'b*{}+1e-3']


def judge(ctx, s):
    """returns False if the text is not a sentence"""
    try:
        want = [Evaluator(salt=k).text(s) for k in range(3)]
    except SyntaxError:
        return False
    if not ctx.case(s):
        return True
    ctx.state()
    once = I.sy.pow2mul(s)
    twice = I.sy.pow2mul(once)
    ctx.trace(2)
    for t, n in ((once, 'once'), (twice, 'twice')):
        try:
            got = [Evaluator(salt=k).text(t) for k in range(3)]
        except SyntaxError as e:
            ctx.fail('expanded (%s): %r becomes %r, which is not an expression: %s' % (n, s, t, e))
            return True
        ctx.check(got == want, 'expanded (%s): %r becomes %r, which has another value' % (n, s, t))
        left = expandable_powers(t)
        ctx.check(not left, 'expanded (%s): %r becomes %r, which still contains %s' % (n, s, t, left))
    ctx.outcome(once)
    return True


# -------------------------------------------------- core grammar
ATOMS = ['x', '3', 'y2']
UNARY = ['-{}', '({})', 'f({})', '{}**2', '{}**n', 'pow({}, 2)', 'pow({}, n)', '2**{}', 'pow(2,{})', '( {} )', '{} ** 3', 'x[{}]']
BINARY = ['{}*{}', '{} + {}', '{}/{}', '{}-{}']


def core(natoms, nunary):
    s0 = ATOMS[:natoms]
    s1 = list(dict.fromkeys(s0 + [u.format(a) for u in UNARY[:nunary] for a in s0] + [b.format(p, q) for b in BINARY for p in s0 for q in s0]))
    return s0, s1


def depth2(natoms, nunary):
    s0, s1 = core(natoms, nunary)
    yield from s1
    for u in UNARY[:nunary]:
        for a in s1:
            yield u.format(a)
    for b in BINARY:
        for p in s1:
            for q in s1:
                yield b.format(p, q)


def extend(s, natoms, nunary):
    for u in UNARY[:nunary]:
        yield u.format(s)
    for b in BINARY:
        for a in ATOMS[:natoms]:
            yield b.format(s, a)
            yield b.format(a, s)


TERMS = ([n.format(b=b, e=e) for n in ('{b}**{e}', '{b} ** {e}', 'pow({b}, {e})') for b in ('x', '10', '(x + 1)', 'f(x)', '(y*(x - 2))')
          for e in ('2', '12', '-1', 'n', '1.5')] + BASES[:44:2] + ['x**2**3', 'pow(x, 2)**3', '(x**2)**2', 'pow(pow(x, 2), 3)'])


# numbers in every notation, whose digits look like other numbers, next to powers
NUMS = ['0', '1', '2', '3', '10', '11', '21', '12', '63', '1.0', '2.0', '11.0', '20.0', '0.5', '.5', '1.', '21.', '1e5', '1E-3', '1.0e2', '11e1',
        '0.10', '2.50', '3e+1']
OPS = ['*', '+', '-', '/', '**', ' * ', ' - ', ' ** ']
NEXT = ['x', 'x**2', '(x)**1', 'f(x)**2', 'pow(x,2)', 'sin(x)**1', 'x1**12']


def plan(tier):
    u = [dict(kind='numbers', part=p, parts=24, tier=tier == 'thorough') for p in range(24)]
    u += [dict(kind='power', c=c) for c in range(len(CONTEXTS))]
    na, nu, parts = (2, 9, 24) if tier == 'quick' else (3, 12, 120)
    u += [dict(kind='core', na=na, nu=nu, part=p, parts=parts, steps=1) for p in range(parts)]
    u += [dict(kind='pairs', part=p, parts=8) for p in range(8)]
    if tier == 'thorough':
        u += [dict(kind='core', na=2, nu=9, part=p, parts=120, steps=2) for p in range(120)]
        u += [dict(kind='triples', part=p, parts=40) for p in range(40)]
    return u


def run(unit, ctx):
    k = unit['kind']
    if k == 'power':
        c = CONTEXTS[unit['c']]
        for b, e, n in itertools.product(BASES, EXPS, NOTES):
            t = n.format(b=b, e=e)
            ctx.trans()
            judge(ctx, c.format(*[t]*c.count('{}')))
    elif k == 'numbers':
        n = NUMS[unit['part']]
        for t, o in itertools.product(NEXT, OPS):
            for s in (n + o + t, t + o + n):
                ctx.trans()
                judge(ctx, s)
            for n2, o2 in itertools.product(NUMS if unit['tier'] else NUMS[unit['part'] % 2::2], OPS if unit['tier'] else OPS[:5]):
                for s in (n + o + n2 + o2 + t, t + o + n + o2 + n2, n + o + t + o2 + n2):
                    ctx.trans()
                    judge(ctx, s)
    elif k == 'core':
        for q, s in enumerate(depth2(unit['na'], unit['nu'])):
            if q % unit['parts'] != unit['part']:
                continue
            ctx.trans()
            if unit['steps'] == 1:
                judge(ctx, s)
            for t in extend(s, unit['na'], unit['nu']):
                ctx.trans()
                if unit['steps'] == 1:
                    judge(ctx, t)
                else:
                    for t2 in extend(t, unit['na'], 9):
                        ctx.trans()
                        judge(ctx, t2)
    else:
        n = 2 if k == 'pairs' else 3
        terms = TERMS if n == 2 else TERMS[::3]
        seps = ['*', ' + ', '/', '-', ', ']
        for q, ts in enumerate(itertools.product(terms, repeat=n)):
            if q % unit['parts'] != unit['part']:
                continue
            for sep in seps if n == 2 else seps[:2]:
                ctx.trans()
                s = sep.join(ts)
                judge(ctx, 'f(%s)' % s if sep == ', ' else s)
