"""High-precision numeric evaluation of terms/formulas at a point (search for
counterexamples, reachability witnesses; never used to discharge an obligation)."""
import hashlib
import mpmath
from mpmath import mp, mpf
from .term import T, F

mp.dps = 50


class Undefined(Exception):
    pass


def ufval(name, args, seed, dom):
    key = name + '|' + '|'.join(mpmath.nstr(a, 25) if not isinstance(a, str) else a for a in args) + '|%d' % seed
    h = int.from_bytes(hashlib.sha256(key.encode()).digest()[:8], 'big') / 2.0 ** 64
    lo, hi = dom
    return mpf(lo) + mpf(h) * (mpf(hi) - mpf(lo))


class Env:
    def __init__(self, values, seed=0, ufdom=None):
        self.values = values
        self.seed = seed
        self.cache = {}
        self.ufdom = ufdom or {}

    def ev(self, t):
        c = self.cache
        if t.id in c:
            return c[t.id]
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in c:
                stack.pop()
                continue
            todo = [a for a in x.args if isinstance(a, T) and a.id not in c]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            c[x.id] = self._one(x)
        return c[t.id]

    def _one(self, t):
        op = t.op
        c = self.cache
        if op == 'c':
            q = t.args[0]
            return mpf(q.numerator) / mpf(q.denominator)
        if op == 'v':
            try:
                return self.values[t.args[0]]
            except KeyError:
                raise Undefined('no value for ' + t.args[0])
        if op == 'pi':
            return mp.pi + 0
        if op == 'uf':
            a = [x if isinstance(x, str) else c[x.id] for x in t.args[1:]]
            return ufval(t.args[0], a, self.seed, self.ufdom.get(t.args[0], (-2, 2)))
        a = [c[x.id] if isinstance(x, T) else x for x in t.args]
        if op == '+':
            return a[0] + a[1]
        if op == '*':
            return a[0] * a[1]
        if op == '/':
            if a[1] == 0:
                raise Undefined('div by zero')
            return a[0] / a[1]
        if op == '^':
            if a[0] == 0 and a[1] < 0:
                raise Undefined('0**neg')
            return a[0] ** a[1]
        if op == 'rpow':
            if a[0] < 0 or (a[0] == 0 and a[1] < 0):
                raise Undefined('neg ** frac')
            q = a[1]
            return a[0] ** (mpf(q.numerator) / q.denominator)
        if op == 'sqrt':
            if a[0] < 0:
                raise Undefined('sqrt of negative')
            return mpmath.sqrt(a[0])
        if op == 'log':
            if a[0] <= 0:
                raise Undefined('log of nonpositive')
            return mpmath.log(a[0])
        if op == 'exp':
            if a[0] > 10**6:
                raise Undefined('overflow')
            return mpmath.exp(a[0])
        if op == 'abs':
            return abs(a[0])
        if op == 'atan2':
            return mpmath.atan2(a[0], a[1])
        if op in ('asin', 'acos'):
            if abs(a[0]) > 1:
                raise Undefined(op)
            return getattr(mpmath, op)(a[0])
        if op == 'Phi':
            return mpmath.ncdf(a[0])
        if op == 'iPhi':
            if not 0 < a[0] < 1:
                raise Undefined('ppf')
            return mpmath.sqrt(2) * mpmath.erfinv(2 * a[0] - 1)
        if op == 'loggamma':
            if a[0] <= 0:
                raise Undefined('loggamma')
            return mpmath.loggamma(a[0])
        if op in ('sin', 'cos', 'tan', 'atan', 'sinh', 'cosh', 'tanh'):
            return getattr(mpmath, op)(a[0])
        if op in ('csre', 'csim'):
            w = mpmath.sqrt(mpmath.mpc(a[0], a[1]))
            return w.real if op == 'csre' else w.imag
        if op == 'chi2cdf':        # chi2cdf(dof, x)
            k, x = a
            if x <= 0:
                return mpf(0)
            return mpmath.gammainc(k / 2, 0, x / 2, regularized=True)
        if op == 'ichi2cdf':
            k, p = a
            if not 0 <= p < 1:
                raise Undefined('ichi2cdf')
            if p == 0:
                return mpf(0)
            import scipy.stats
            x = mpf(float(scipy.stats.chi2.ppf(float(p), float(k))))
            if not 0 < x < mpf(10) ** 6 or p > 1 - mpf(10) ** -12:
                raise Undefined('ichi2cdf')
            for _ in range(8):
                d = mpmath.exp((k / 2 - 1) * mpmath.log(x) - x / 2 - k / 2 * mpmath.log(2) - mpmath.loggamma(k / 2))
                dx = (mpmath.gammainc(k / 2, 0, x / 2, regularized=True) - p) / d
                x = x - dx if x - dx > 0 else x / 2
                if abs(dx) < x * mpf(10) ** -45:
                    break
            else:
                raise Undefined('ichi2cdf')
            return x
        raise Undefined('no numeric model for ' + op)

    def holds(self, f, tol=None):
        """truth value of a formula; equality decided with relative tolerance."""
        op = f.op
        if op == 'T':
            return True
        if op == 'F':
            return False
        if op == '&':
            return all(self.holds(a) for a in f.args)
        if op == '|':
            return any(self.holds(a) for a in f.args)
        if op == '~':
            return not self.holds(f.args[0])
        if op == 'b':
            return bool(self.values.get(f.args[0], False))
        v = self.ev(f.args[0])
        m = self.mag(f.args[0])
        z = abs(v) <= m * mpf(10) ** -30
        if op == '==':
            return z
        if op == '<=':
            return v <= 0 or z
        if op == '<':
            return v < 0 and not z
        raise Undefined(op)

    def mag(self, t):
        """scale of the summands of t, for relative comparison with zero"""
        if t.op == '+':
            m = mpf(0)
            st = [t]
            n = 0
            while st and n < 2000:
                x = st.pop()
                n += 1
                if x.op == '+':
                    st.extend(x.args)
                else:
                    m = max(m, abs(self.ev(x)))
            return m
        return abs(self.ev(t))
