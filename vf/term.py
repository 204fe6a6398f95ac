"""Hash-consed real-valued terms and first-order formulas over them.

A term denotes a mathematical real.  Floats met in the code under verification are
read as the simplest rational within 2 ulp of that float (see `ratify`), i.e. machine
arithmetic is treated as exact real arithmetic (stated as an assumption in evidence).
"""
from fractions import Fraction
import math

_table = {}


class T:
    __slots__ = ('op', 'args', 'id', 'size')

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op,) + tuple(a.id if isinstance(a, T) else ('#', type(a).__name__, a) for a in args)
    t = _table.get(key)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.args = args
        t.id = len(_table)
        t.size = 1 + sum(a.size for a in args if isinstance(a, T))
        _table[key] = t
    return t


_rat_cache = {}


def ratify(x):
    """Simplest rational whose nearest double is x (Stern-Brocot in the rounding interval)."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, int):
        return Fraction(int(x))
    x = float(x)
    r = _rat_cache.get(x)
    if r is not None:
        return r
    if x != x or x in (math.inf, -math.inf):
        raise OverflowError('non-finite float constant %r in symbolic arithmetic' % x)
    if x == int(x) and abs(x) < 1e15:
        r = Fraction(int(x))
    else:
        s = Fraction(repr(x))            # shortest decimal that round-trips
        if len(repr(x)) > 15:            # result of constant folding in floats: undo the last-digit rounding
            d = repr(float('%.15g' % x))
            if len(d) < 14 and abs(float(d) - x) <= 3 * math.ulp(x):
                s = Fraction(d)
        lo = Fraction(x) - Fraction(math.ulp(x)) * 2
        hi = Fraction(x) + Fraction(math.ulp(x)) * 2
        q = _simplest(lo, hi)
        # prefer p/q form (1/3, 2/9, ...) only when it is much simpler than the decimal
        if q.denominator ** 2 * (hi - lo) < Fraction(1, 1000) and q.denominator * 100 < s.denominator:
            r = q
        else:
            r = s
    _rat_cache[x] = r
    return r


def _simplest(lo, hi):
    """simplest rational in (lo, hi)"""
    if lo < 0 < hi:
        return Fraction(0)
    if hi <= 0:
        return -_simplest(-hi, -lo)
    # continued fraction
    def rec(a, b):
        fa = a.numerator // a.denominator
        if fa + 1 < b:
            return Fraction(fa + 1) if fa + 1 > a else Fraction(fa + 2)
        if b - fa <= 0:
            return Fraction(fa)
        if a == fa:
            # need something in (fa, b), b <= fa+1
            return Fraction(fa) + Fraction(1, int(1 / (b - fa)) + 1)
        return fa + 1 / rec(1 / (b - fa), 1 / (a - fa))
    return rec(lo, hi)


def const(x):
    return mk('c', ratify(x))


ZERO = const(0)
ONE = const(1)
NEG1 = const(-1)


def var(name):
    return mk('v', name)


def isc(t):
    return t.op == 'c'


def add(a, b):
    if a.op == 'c':
        if b.op == 'c':
            return const(a.args[0] + b.args[0])
        if a.args[0] == 0:
            return b
        a, b = b, a
    if b.op == 'c' and b.args[0] == 0:
        return a
    return mk('+', a, b)


def neg(a):
    return mul(NEG1, a)


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def mul(a, b):
    if a.op == 'c':
        if b.op == 'c':
            return const(a.args[0] * b.args[0])
        ca = a.args[0]
        if ca == 0:
            return ZERO
        if ca == 1:
            return b
        if b.op == '*' and b.args[0].op == 'c':
            return mul(const(ca * b.args[0].args[0]), b.args[1])
        return mk('*', a, b)
    if b.op == 'c':
        return mul(b, a)
    if a is b:
        return pow_(a, 2)
    return mk('*', a, b)


def div(a, b):
    if b.op == 'c':
        if b.args[0] == 0:
            raise ZeroDivisionError('division by zero')
        return mul(const(1 / b.args[0]), a)
    if a is ZERO:
        return ZERO
    if a is b:
        return ONE
    return mk('/', a, b)


def pow_(a, n):
    """n: int or Fraction constant."""
    n = Fraction(n)
    if n == 1:
        return a
    if n == 0:
        return ONE
    if n.denominator == 1:
        n = int(n)
        if a.op == 'c':
            if a.args[0] == 0 and n < 0:
                raise ZeroDivisionError('0 ** negative')
            return const(a.args[0] ** n)
        if a.op == '^' and isinstance(a.args[1], int):
            return pow_(a.args[0], a.args[1] * n)
        if a.op == 'sqrt' and n % 2 == 0 and n > 0:
            return pow_(a.args[0], n // 2)
        return mk('^', a, n)
    if n == Fraction(1, 2):
        return fn('sqrt', a)
    if a.op == 'c' and a.args[0] in (0, 1):
        return a
    return mk('rpow', a, n)


def fn(name, *args):
    if name == 'sqrt':
        a = args[0]
        if a.op == 'c':
            r = _isqrt(a.args[0])
            if r is not None:
                return const(r)
    elif name == 'exp' and args[0] is ZERO:
        return ONE
    elif name == 'log' and args[0] is ONE:
        return ZERO
    elif name in ('sin', 'atan', 'tan', 'asin', 'arcsinh', 'tanh', 'sinh') and args[0] is ZERO:
        return ZERO
    elif name in ('cos', 'cosh') and args[0] is ZERO:
        return ONE
    elif name == 'abs':
        a = args[0]
        if a.op == 'c':
            return const(abs(a.args[0]))
        if a.op in ('sqrt', 'abs', 'exp') or (a.op == '^' and a.args[1] % 2 == 0):
            return a
        if a.op == '*' and a.args[0].op == 'c':
            return mul(const(abs(a.args[0].args[0])), fn('abs', a.args[1]))
    return mk(name, *args)


def _isqrt(q):
    if q < 0:
        return None
    n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
    if n * n == q.numerator and d * d == q.denominator:
        return Fraction(n, d)
    return None


PI = mk('pi')


# ---------------------------------------------------------------- formulas
# ('T',) ('F',) ('==',t) ('<=',t) ('<',t)   [t op 0],  ('&',..) ('|',..) ('~',f), ('b', name)

class F:
    __slots__ = ('op', 'args')

    def __init__(self, op, *args):
        self.op = op
        self.args = args

    def __repr__(self):
        if self.op in ('==', '<=', '<'):
            return '(%s %s 0)' % (show(self.args[0]), self.op)
        return '%s%r' % (self.op, self.args)

    def key(self):
        return (self.op,) + tuple(a.key() if isinstance(a, F) else (a.id if isinstance(a, T) else a)
                                  for a in self.args)


TRUE = F('T')
FALSE = F('F')


def cmp0(op, t):
    if t.op == 'c':
        v = t.args[0]
        return TRUE if {'==': v == 0, '<=': v <= 0, '<': v < 0}[op] else FALSE
    return F(op, t)


def fnot(f):
    if f.op == 'T':
        return FALSE
    if f.op == 'F':
        return TRUE
    if f.op == '~':
        return f.args[0]
    if f.op == '<=':
        return cmp0('<', neg(f.args[0]))
    if f.op == '<':
        return cmp0('<=', neg(f.args[0]))
    if f.op == '&':
        return f_or(*[fnot(a) for a in f.args])
    if f.op == '|':
        return f_and(*[fnot(a) for a in f.args])
    return F('~', f)


def f_and(*fs):
    out = []
    for f in fs:
        if f.op == 'F':
            return FALSE
        if f.op == 'T':
            continue
        if f.op == '&':
            out.extend(f.args)
        else:
            out.append(f)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else F('&', *out)


def f_or(*fs):
    out = []
    for f in fs:
        if f.op == 'T':
            return TRUE
        if f.op == 'F':
            continue
        out.append(f)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else F('|', *out)


def show(t, depth=6):
    if t.op == 'c':
        return str(t.args[0])
    if t.op == 'v':
        return t.args[0]
    if t.op == 'pi':
        return 'pi'
    if depth == 0:
        return '...'
    a = [show(x, depth - 1) if isinstance(x, T) else str(x) for x in t.args]
    if t.op in '+*/^':
        return '(' + (' %s ' % t.op).join(a) + ')'
    return '%s(%s)' % (t.op, ', '.join(a))


def variables(ts):
    seen, out = set(), {}
    stack = list(ts)
    while stack:
        t = stack.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == 'v':
            out[t.args[0]] = t
        for a in t.args:
            if isinstance(a, T):
                stack.append(a)
    return out


def fterms(f):
    out = []
    for a in f.args:
        if isinstance(a, T):
            out.append(a)
        elif isinstance(a, F):
            out.extend(fterms(a))
    return out
