"""Exact symbolic differentiation of terms (used by postconditions of the form density = d(cdf)/dx)."""
from fractions import Fraction
from . import term as tm
from .term import T, const, ZERO, ONE, PI, fn, mk

HALF = const(Fraction(1, 2))

NEG = const(-1)


def depends(t, x, memo):
    if t.id in memo:
        return memo[t.id]
    r = t is x or any(depends(a, x, memo) for a in t.args if isinstance(a, T))
    memo[t.id] = r
    return r


def diff(t, x):
    memo, out = {}, {}

    def d(t):
        if t.id not in out:
            out[t.id] = _d(t)
        return out[t.id]

    def _d(t):
        if t is x:
            return ONE
        if not depends(t, x, memo):
            return ZERO
        op, a = t.op, t.args
        if op == '+':
            return tm.add(d(a[0]), d(a[1]))
        if op == '*':
            return tm.add(tm.mul(d(a[0]), a[1]), tm.mul(a[0], d(a[1])))
        if op == '/':
            return tm.sub(tm.div(d(a[0]), a[1]), tm.div(tm.mul(a[0], d(a[1])), tm.pow_(a[1], 2)))
        if op == '^':
            return tm.mul(tm.mul(const(a[1]), tm.pow_(a[0], a[1] - 1)), d(a[0]))
        if op == 'sqrt':
            return tm.div(d(a[0]), tm.mul(const(2), t))
        if op == 'exp':
            return tm.mul(t, d(a[0]))
        if op == 'log':
            return tm.div(d(a[0]), a[0])
        if op == 'abs':
            return tm.div(tm.mul(a[0], d(a[0])), t)
        if op == 'atan':
            return tm.div(d(a[0]), tm.add(ONE, tm.pow_(a[0], 2)))
        if op == 'sin':
            return tm.mul(fn('cos', a[0]), d(a[0]))
        if op == 'cos':
            return tm.neg(tm.mul(fn('sin', a[0]), d(a[0])))
        if op == 'Phi':
            return tm.mul(tm.div(fn('exp', tm.mul(const(Fraction(-1, 2)), tm.pow_(a[0], 2))), fn('sqrt', tm.mul(const(2), PI))), d(a[0]))
        if op == 'chi2cdf' and not depends(a[0], x, memo):
            k2, y = tm.mul(HALF, a[0]), tm.mul(HALF, a[1])
            return tm.mul(tm.mul(HALF, fn('exp', tm.sub(tm.sub(tm.mul(tm.sub(k2, ONE), fn('log', y)), y), fn('loggamma', k2)))), d(a[1]))
        from .sym import Unsupported
        raise Unsupported('derivative of ' + op)
    return d(t)
