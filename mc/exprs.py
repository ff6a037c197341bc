"""Exact evaluation of arithmetic text and of sympy expressions.

Values are rationals.  Powers with an integer exponent of moderate size are
computed; everything else (function calls, symbolic or fractional powers,
attributes, items) is an uninterpreted function of its exactly evaluated
arguments, so two texts agree only if they mean the same expression.
"""
import ast
import hashlib
from fractions import Fraction as F


def opaque(name, *args):
    h = hashlib.blake2b(repr((name,) + args).encode(), digest_size=6).digest()
    return F(int.from_bytes(h, 'big') + 1, 1048573)


def power(a, b):
    if b.denominator == 1 and abs(b) <= 64:
        if b < 0 and a == 0:
            raise ZeroDivisionError
        if max(abs(a.numerator), a.denominator).bit_length()*abs(b) < 2000000:
            return a**int(b)
    if b < 0:
        return 1/opaque('**', a, -b)
    return opaque('**', a, b)


def symbol(name, salt=0):
    """A value for a symbol; three fixed valuations (generic, signed, small),
    never an integer, so that an integer exponent is one in the text."""
    h = int.from_bytes(hashlib.blake2b(name.encode(), digest_size=4).digest(), 'big')
    if salt == 0:
        return F(h % 9973 + 2, 101 + h % 7)
    if salt == 1:
        return -F(2*(h % 97) + 3, 2)
    return F(3*(h % 3) + 4, 3)


class Evaluator(object):
    def __init__(self, env=None, salt=0):
        self.env, self.salt = env or {}, salt

    def text(self, s):
        try:
            return self.ev(ast.parse(s.strip(), mode='eval').body)
        except ZeroDivisionError:
            return 'undefined'

    def name(self, n):
        if n in self.env:
            return self.env[n]
        return symbol(n, self.salt)

    def ev(self, n):
        t = type(n)
        if t is ast.Constant:
            if isinstance(n.value, bool) or not isinstance(n.value, (int, float)):
                raise SyntaxError('not an arithmetic constant: %r' % (n.value,))
            return F(n.value)
        if t is ast.Name:
            return self.name(n.id)
        if t is ast.BinOp:
            a, b = self.ev(n.left), self.ev(n.right)
            o = type(n.op)
            if o is ast.Add:
                return a + b
            if o is ast.Sub:
                return a - b
            if o is ast.Mult:
                return a*b
            if o is ast.Div:
                return a/b
            if o is ast.FloorDiv:
                return F(a//b)
            if o is ast.Mod:
                return a % b
            if o is ast.Pow:
                return power(a, b)
        if t is ast.UnaryOp:
            a = self.ev(n.operand)
            if type(n.op) is ast.USub:
                return -a
            if type(n.op) is ast.UAdd:
                return a
        if t is ast.Call and not n.keywords:
            args = [self.ev(a) for a in n.args]
            if isinstance(n.func, ast.Name):
                if n.func.id == 'pow' and len(args) == 2:
                    return power(*args)
                if n.func.id == 'sqrt' and len(args) == 1:
                    return power(args[0], F(1, 2))
                return opaque('call ' + n.func.id, *args)
            return opaque('call', self.ev(n.func), *args)
        if t is ast.Attribute:
            return opaque('.' + n.attr, self.ev(n.value))
        if t is ast.Subscript:
            return opaque('[]', self.ev(n.value), self.ev(n.slice))
        raise SyntaxError('not arithmetic: %s' % ast.dump(n))

    def sympy(self, e, fun=None):
        """Exact value of a sympy expression (fun maps function classes to names)."""
        if e.is_Symbol:
            return self.name(e.name)
        if e.is_Rational:
            return F(int(e.p), int(e.q))
        if e.is_Float:
            return F(float(e))
        if e.is_Add:
            return sum((self.sympy(a) for a in e.args), F(0))
        if e.is_Mul:
            r = F(1)
            for a in e.args:
                r *= self.sympy(a)
            return r
        if e.is_Pow:
            return power(self.sympy(e.base), self.sympy(e.exp))
        if e.is_Function:
            return opaque('call ' + type(e).__name__, *[self.sympy(a) for a in e.args])
        if e.is_NumberSymbol:
            return self.name(str(e))
        raise TypeError(repr(e))


def expandable_powers(s):
    """Powers of a plain symbol, integer or parenthesised group to a plain
    positive integer that are still present in the text."""
    s = s.strip()
    out = []
    for n in ast.walk(ast.parse(s, mode='eval')):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Pow):
            b, e = n.left, n.right
            between = s[b.end_col_offset:e.col_offset]
            if '(' in between:
                continue
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'pow' and len(n.args) == 2:
            b, e = n.args
            seg = ast.get_source_segment(s, n)
            if seg.rstrip(') ').endswith('(' + str(getattr(e, 'value', '')).strip()):
                continue
            # only a bare exponent counts: nothing but blanks between ',' and ')'
            tail = s[e.end_col_offset:n.end_col_offset]
            if tail.strip() != ')':
                continue
            if isinstance(e, ast.Constant) and isinstance(e.value, int) and e.value > 0:
                out.append(seg)
            continue
        else:
            continue
        if not (isinstance(e, ast.Constant) and isinstance(e.value, int) and e.value > 0):
            continue
        if isinstance(b, (ast.Name, ast.BinOp, ast.UnaryOp)) or (isinstance(b, ast.Constant) and isinstance(b.value, int)):
            out.append(ast.get_source_segment(s, n))
    return out
