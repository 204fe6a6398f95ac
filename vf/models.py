"""Models of the numeric library functions flavio calls, on symbolic arguments.

On plain numeric arguments every model falls through to the library itself, except that
integer/rational arguments of sqrt/log/exp/... stay exact.  This file is part of the trusted
base: each model is the textbook definition of the function it stands for."""
import builtins
import cmath
import itertools
import math
import types
from fractions import Fraction
import numpy as np
import scipy
import scipy.stats
import scipy.special
import scipy.interpolate
import scipy.optimize
from . import term as tm
from .term import *
from .sym import *
from . import sym as S


def hassym(x):
    if isinstance(x, (R, Z, B)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(y, (R, Z, B)) for y in x.flat)
    if isinstance(x, (list, tuple)):
        return any(hassym(y) for y in x)
    if isinstance(x, dict):
        return any(hassym(y) for y in x.values())
    return False


def exactable(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool) or \
        isinstance(x, float) and x == x and abs(x) != math.inf or isinstance(x, np.floating) and np.isfinite(x)


def elementwise(f):
    def g(x, *a, **k):
        if isinstance(x, (list, tuple)):
            x = np.array(x, dtype=object)
        if isinstance(x, np.ndarray):
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(x.shape):
                out[i] = f(x[i], *a, **k)
            return out if out.shape else out[()]
        return f(x, *a, **k)
    return g


def real1(name, tf, native, np_arrays=False):
    """unary real function"""
    def f(x, *a, **k):
        if isinstance(x, (R, B)) or (isinstance(x, Z) and x.im is ZERO and not np_arrays):
            return R(tf(tt(x)))
        if isinstance(x, Z):
            raise TypeError('must be real number, not complex')
        if exactable(x) and S.CTX is not None and not a and not k:
            return R(tf(tt(x)))
        return native(x, *a, **k)
    f.__name__ = name
    return f


def cplx1(name, zf, rf, native):
    """numpy-style: real stays real, complex goes complex; arrays elementwise"""
    def one(x):
        if isinstance(x, Z) or isinstance(x, (complex, np.complexfloating)):
            return zf(x)
        return R(rf(tt(x)))

    def f(x, *a, **k):
        if hassym(x):
            return elementwise(one)(x)
        if exactable(x) and S.CTX is not None and not a and not k and not isinstance(x, np.ndarray):
            return R(rf(tt(x)))
        return native(x, *a, **k)
    f.__name__ = name
    return f


def cm(name, zf, native):
    def f(x):
        if is_sym(x):
            return zf(x)
        if exactable(x) and S.CTX is not None:
            return zf(R(tt(x)))
        return native(x)
    f.__name__ = name
    return f


def phase(x):
    if is_sym(x):
        re, im = zz(x)
        return R(tatan2(im, re))
    return cmath.phase(x)


def atan2(y, x):
    if is_sym(y) or is_sym(x):
        return R(tatan2(tt(y), tt(x)))
    return math.atan2(y, x)


def m_pow(a, b):
    if is_sym(a) or is_sym(b):
        return a ** b
    return math.pow(a, b)


def tatanh(t):
    one = const(1)
    return tm.mul(const(Fraction(1, 2)), tlog(tm.div(tm.add(one, t), tm.sub(one, t))))


def m_log(x, base=None):
    if base is not None:
        return m_log(x) / m_log(base)
    if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
        x = x.item()
    if isinstance(x, R):
        return R(tlog(x.t))
    if exactable(x) and S.CTX is not None:
        return R(tlog(tt(x)))
    return math.log(x)


def cm_log(x, base=None):
    if is_sym(x):
        return zlog(x)
    return cmath.log(x) if base is None else cmath.log(x, base)


def cm_atan(x):
    if isinstance(x, Z):
        re, im = S.zz(x)
        if im is not ZERO:
            raise S.Unsupported('atan of a complex number')
        x = R(re)
    return R(tatan(x.t)) if isinstance(x, R) else cmath.atan(x)


def invtrig(fop, aop, x):
    """sin/cos/tan of an inverse function"""
    y = aop.args[0]
    o = aop.op
    if o == 'asin':
        c = tm.fn('sqrt', tm.sub(ONE, tm.pow_(y, 2)))
        return {'sin': y, 'cos': c, 'tan': None if c is ZERO else tm.div(y, c)}[fop]
    if o == 'acos':
        s = tm.fn('sqrt', tm.sub(ONE, tm.pow_(y, 2)))
        return {'sin': s, 'cos': y, 'tan': tm.div(s, y)}[fop]
    if o == 'atan':
        h = tm.fn('sqrt', tm.add(ONE, tm.pow_(y, 2)))
        return {'sin': tm.div(y, h), 'cos': tm.div(ONE, h), 'tan': y}[fop]


def ttan(t):
    if t.op in ('asin', 'acos', 'atan'):
        return invtrig('tan', t, None)
    s, c = tsin(t), tcos(t)
    return S.tdiv(s, c)


def tasin(t):
    if t.op != 'c':
        S.assume_def(cmp0('<=', tm.sub(tm.pow_(t, 2), ONE)))
    return fn('asin', t)


def tacos(t):
    if t.op != 'c':
        S.assume_def(cmp0('<=', tm.sub(tm.pow_(t, 2), ONE)))
    return fn('acos', t)


def opaque1(op):
    return lambda t: fn(op, t)


def tatan(t):
    return fn('atan', t)


def tlog10(t):
    return tm.div(tlog(t), fn('log', const(10)))


def np_isnan(x, *a, **k):
    if hassym(x):
        return elementwise(lambda y: False if isinstance(y, (R, Z, B)) else bool(np.isnan(y)))(x)
    return np.isnan(x, *a, **k)


def np_isinf(x, *a, **k):
    if hassym(x):
        return elementwise(lambda y: False if isinstance(y, (R, Z, B)) else bool(np.isinf(y)))(x)
    return np.isinf(x, *a, **k)


def np_isfinite(x, *a, **k):
    if hassym(x):
        return elementwise(lambda y: True if isinstance(y, (R, Z, B)) else bool(np.isfinite(y)))(x)
    return np.isfinite(x, *a, **k)


def np_isscalar(x):
    return True if isinstance(x, (R, Z, B)) else np.isscalar(x)


def np_iscomplex(x):
    if hassym(x):
        return elementwise(lambda y: mkb(fnot(cmp0('==', zz(y)[1]))))(x)
    return np.iscomplex(x)


def np_iscomplexobj(x):
    if hassym(x):
        return any(isinstance(y, (Z, complex)) for y in np.asarray(x, dtype=object).flat)
    return np.iscomplexobj(x)


def _conj(x):
    return x.conjugate() if hasattr(x, 'conjugate') else x


def np_conj(x, *a, **k):
    return elementwise(_conj)(x) if hassym(x) else np.conj(x, *a, **k)


def np_real(x):
    return elementwise(lambda y: y.real)(x) if hassym(x) else np.real(x)


def np_imag(x):
    return elementwise(lambda y: y.imag)(x) if hassym(x) else np.imag(x)


def np_abs(x, *a, **k):
    return elementwise(abs)(x) if hassym(x) else np.abs(x, *a, **k)


def np_angle(x, *a, **k):
    return elementwise(phase)(x) if hassym(x) else np.angle(x, *a, **k)


def _max2(a, b):
    return a if a >= b else b


def _min2(a, b):
    return a if a <= b else b


def np_minmax(pick, native):
    def f(x, *a, **k):
        if hassym(x):
            if isinstance(x, (R, Z)):
                return x
            arr = np.asarray(x, dtype=object)
            if a or k:
                axis = a[0] if len(a) == 1 and not k else k['axis'] if not a and list(k) == ['axis'] else Unsupported
                if axis is Unsupported:
                    raise Unsupported('np.max/min options on symbolic data')
                if axis is not None:
                    ax = sorted(i % arr.ndim for i in (axis if isinstance(axis, tuple) else (int(axis),)))
                    rest = [i for i in range(arr.ndim) if i not in ax]
                    if not rest:
                        return f(arr)
                    moved = arr.transpose(rest + ax).reshape([arr.shape[i] for i in rest] + [-1])
                    out = np.empty(moved.shape[:-1], dtype=object)
                    for i in np.ndindex(out.shape):
                        out[i] = f(moved[i])
                    return out
            it = iter(arr.flat)
            r = next(it)
            for y in it:
                r = pick(r, y)
            return r
        return native(x, *a, **k)
    return f


def np_pair(pick, native):
    def f(a, b, *r, **k):
        if hassym(a) or hassym(b):
            A, B_ = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
            out = np.empty(A.shape, dtype=object)
            for i in np.ndindex(A.shape):
                out[i] = pick(A[i], B_[i])
            return out if out.shape else out[()]
        return native(a, b, *r, **k)
    return f


def np_where(c, *ab):
    if not ab:
        return np.where(np.asarray(boolarr(c)))
    if hassym(c) or hassym(ab[0]) or hassym(ab[1]):
        C = np.asarray(boolarr(c))
        a, b = ab
        C, A, B_ = np.broadcast_arrays(C, np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        out = np.empty(C.shape, dtype=object)
        for i in np.ndindex(C.shape):
            out[i] = A[i] if C[i] else B_[i]
        return out if out.shape else out[()]
    return np.where(c, *ab)


def boolarr(c):
    if isinstance(c, B):
        return bool(c)
    if isinstance(c, np.ndarray) and c.dtype == object:
        return np.array([bool(x) for x in c.flat], dtype=bool).reshape(c.shape)
    return c


def np_all(x, *a, **k):
    if hassym(x):
        return all(bool(y) for y in np.asarray(x, dtype=object).flat)
    return np.all(x, *a, **k)


def np_any(x, *a, **k):
    if hassym(x):
        return any(bool(y) for y in np.asarray(x, dtype=object).flat)
    return np.any(x, *a, **k)


def np_sign(x):
    if hassym(x):
        return elementwise(lambda y: 1 if y > 0 else (-1 if y < 0 else 0))(x)
    return np.sign(x)


def objify(x):
    return x.astype(object) if isinstance(x, np.ndarray) and x.dtype != object and x.dtype.kind in 'fci' else x


def np_array(x, *a, **k):
    if hassym(x):
        k.pop('dtype', None)
        r = np.array(x, dtype=object, **k)
        return r
    return np.array(x, *a, **k)


def np_asarray(x, *a, **k):
    if hassym(x):
        return x if isinstance(x, np.ndarray) else np.array(x, dtype=object)
    return np.asarray(x, *a, **k)


def mkfilled(native):
    def f(*a, **k):
        r = native(*a, **k)
        if S.CTX is not None and r.dtype.kind in 'fc':
            o = np.empty(r.shape, dtype=object)
            for i in np.ndindex(r.shape):
                v = r[i]
                o[i] = int(v) if v == int(v.real) else float(v)
            return o
        return r
    return f


def np_empty(*a, **k):
    if S.CTX is not None:
        r = np.zeros(*a, **k)
        return r.astype(object)
    return np.empty(*a, **k)


def np_sum(x, *a, **k):
    if hassym(x):
        if isinstance(x, (R, Z)):
            return x
        arr = np.array(x, dtype=object) if not isinstance(x, np.ndarray) else x
        return np.sum(arr, *a, **k)
    return np.sum(x, *a, **k)


def np_mean(x, *a, **k):
    if hassym(x):
        arr = np.array(x, dtype=object)
        axis = a[0] if a else k.pop('axis', None)
        if k or len(a) > 1:
            raise Unsupported('np.mean options')
        return np.sum(arr, axis=axis) / (arr.size if axis is None else arr.shape[axis])
    return np.mean(x, *a, **k)


def np_var(x, *a, ddof=0, **k):
    if hassym(x):
        if a or k:
            raise Unsupported('np.var options')
        arr = np.array(x, dtype=object).ravel()
        m = np.sum(arr) / arr.size
        return np.sum((arr - m) * (arr - m)) / (arr.size - ddof)
    return np.var(x, *a, ddof=ddof, **k)


def np_std(x, *a, **k):
    if hassym(x):
        return R(tsqrt(tt(np_var(x, *a, **k))))
    return np.std(x, *a, **k)


def np_cov(m, *a, **k):
    if hassym(m):
        if a or k:
            raise Unsupported('np.cov options')
        X = np.array(m, dtype=object)
        flat = X.ndim == 1
        X = np.atleast_2d(X)
        n = X.shape[1]
        D = X - (np.sum(X, axis=1) / n).reshape(-1, 1)
        C = np.dot(D, D.T) / (n - 1)
        return np.array(C[0, 0]) if len(C) == 1 else C
    return np.cov(m, *a, **k)


def np_full(shape, fill_value, *a, **k):
    if hassym(fill_value):
        out = np.empty(shape, dtype=object)
        out[...] = fill_value
        return out
    return np.full(shape, fill_value, *a, **k)


def np_average(x, axis=None, weights=None, **k):
    if hassym(x) or hassym(weights):
        if axis is not None or k:
            raise Unsupported('np.average options')
        arr = np.array(x, dtype=object)
        if weights is None:
            return np.sum(arr) / arr.size
        w = np.array(weights, dtype=object)
        return np.sum(arr * w) / np.sum(w)
    return np.average(x, axis=axis, weights=weights, **k)


def np_allclose(a, b, rtol=1e-05, atol=1e-08, **k):
    if hassym(a) or hassym(b) or (S.CTX is not None and (np.asarray(a).dtype == object or np.asarray(b).dtype == object)):
        A, B_ = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))

        def close(x, y):
            d = x - y
            if isinstance(d, R) and S.CTX is not None and same(tt(x), tt(y), 20000):
                return True
            return bool(abs(d) <= atol + rtol * abs(y))
        return all(close(x, y) for x, y in zip(A.flat, B_.flat))
    r = (rtol, atol)
    return np.allclose(a, b, *r, **k)


def np_array_equal(a, b, *r, **k):
    if hassym(a) or hassym(b):
        A, B_ = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        return A.shape == B_.shape and all(bool(x == y) for x, y in zip(A.flat, B_.flat))
    return np.array_equal(a, b, *r, **k)


def np_interp(x, xp, fp, **k):
    if hassym(x) or hassym(xp) or hassym(fp):
        raise Unsupported('np.interp on symbolic data')
    return np.interp(x, xp, fp, **k)


# ---------------------------------------------------------------- linear algebra
def _mat(a):
    return [[a[i, j] for j in range(a.shape[1])] for i in range(a.shape[0])]


def det_list(m):
    n = len(m)
    if n == 0:
        return 1
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    r = 0
    for j in range(n):
        if isinstance(m[0][j], int) and m[0][j] == 0:
            continue
        r = r + (-1) ** j * m[0][j] * det_list([row[:j] + row[j + 1:] for row in m[1:]])
    return r


def la_det(a):
    if hassym(a) or (isinstance(a, np.ndarray) and a.dtype == object):
        return det_list(_mat(np.asarray(a, dtype=object)))
    return np.linalg.det(a)


def la_inv(a):
    if hassym(a) or (isinstance(a, np.ndarray) and a.dtype == object):
        A = np.asarray(a, dtype=object)
        m = _mat(A)
        n = len(m)
        inf = [i for i in range(n) if isinstance(m[i][i], float) and m[i][i] == math.inf]
        if inf:
            # unconstrained directions: zero weight (floating point semantics of x/inf)
            keep = [i for i in range(n) if i not in inf]
            if any(not (isinstance(m[i][j], (int, float)) and m[i][j] == 0) for i in inf for j in range(n) if j != i):
                raise Unsupported('inverse of a matrix with infinite entries')
            out = np.zeros((n, n), dtype=object)
            if keep:
                out[np.ix_(keep, keep)] = la_inv(A[np.ix_(keep, keep)])
            return out
        d = det_list(m)
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                minor = [row[:i] + row[i + 1:] for k, row in enumerate(m) if k != j]
                out[i, j] = (-1) ** (i + j) * det_list(minor) / (d if is_sym(d) else R(tt(d)))
        return out
    return np.linalg.inv(a)


def la_solve(a, b):
    if hassym(a) or hassym(b):
        return np.dot(la_inv(np.asarray(a, dtype=object)), np.asarray(b, dtype=object))
    return np.linalg.solve(a, b)


def la_posdef(a):
    """Sylvester: all leading minors > 0"""
    m = _mat(np.asarray(a, dtype=object))
    for k in range(1, len(m) + 1):
        if not det_list([r[:k] for r in m[:k]]) > 0:
            return False
    return True


# ---------------------------------------------------------------- statistics functions
def _const(x):
    return R(tt(x))


def phi_cdf(z):
    return R(t_Phi(tt(z)))


def subterms(t, op):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == op:
            out.append(x)
        st.extend(a for a in x.args if isinstance(a, T))
    return out


def same(a, b, limit=400):
    """a == b by ring normal form (under the path facts)"""
    if a is b:
        return True
    if a.size + b.size > limit:
        return False
    from . import solve
    fc = S.CTX.facts() if S.CTX is not None else solve.Facts([])
    d = tm.sub(a, b)
    if solve.ring_zero(fc, d):
        return True
    d2 = solve.simp_abs(fc, d)
    return d2 is not d and bool(solve.ring_zero(fc, d2))


def t_Phi(t):
    if t.op == 'c' and t.args[0] == 0:
        return const(Fraction(1, 2))
    if t.op == 'iPhi':
        return t.args[0]
    if t.op != 'c':
        for x in subterms(t, 'iPhi'):
            if same(t, x):
                return x.args[0]
            if same(t, tm.neg(x)):
                return tm.sub(ONE, x.args[0])
    # canonical sign: Phi(-x) = 1 - Phi(x)
    if t.op == '*' and t.args[0].op == 'c' and t.args[0].args[0] < 0:
        return tm.sub(ONE, t_Phi(tm.neg(t)))
    if t.op == 'c' and t.args[0] < 0:
        return tm.sub(ONE, fn('Phi', tm.neg(t)))
    return fn('Phi', t)


def t_iPhi(p):
    if p.op == 'c' and p.args[0] == Fraction(1, 2):
        return ZERO
    if p.op == 'Phi':
        return p.args[0]
    if p.op == 'c' and p.args[0] < Fraction(1, 2):
        return tm.neg(fn('iPhi', tm.sub(ONE, p)))
    if p.op != 'c':
        for x in subterms(p, 'Phi'):
            if same(p, x):
                return x.args[0]
            if same(p, tm.sub(ONE, x)):
                return tm.neg(x.args[0])
        S.assume_def(cmp0('<', tm.neg(p)))
        S.assume_def(cmp0('<', tm.sub(p, ONE)))
    return fn('iPhi', p)


def t_chi2cdf(d, y):
    """chi2 distribution function for y > 0"""
    for x in subterms(y, 'ichi2cdf'):
        if same(x.args[0], d) and same(y, x):
            return x.args[1]
    one = d.op == 'c' and d.args[0] == 1 or S.CTX is not None and S.CTX.quick(cmp0('==', tm.sub(d, ONE))) is True
    if one:
        return tm.sub(tm.mul(const(2), t_Phi(fn('sqrt', y))), ONE)
    if d.op == 'c' and d.args[0] == 2:
        return tm.sub(ONE, fn('exp', tm.mul(const(Fraction(-1, 2)), y)))
    return fn('chi2cdf', d, y)


def t_ichi2cdf(d, p):
    """chi2 quantile for 0 <= p < 1"""
    if p is ZERO:
        return ZERO
    for x in subterms(p, 'chi2cdf'):
        if same(x.args[0], d) and same(p, x):
            return x.args[1]
    one = d.op == 'c' and d.args[0] == 1 or S.CTX is not None and S.CTX.quick(cmp0('==', tm.sub(d, ONE))) is True
    if one:
        return tm.pow_(t_iPhi(tm.mul(const(Fraction(1, 2)), tm.add(ONE, p))), 2)
    if d.op == 'c' and d.args[0] == 2:
        return tm.mul(const(-2), tlog(tm.sub(ONE, p)))
    if S.CTX is not None:
        if S.CTX.quick(cmp0('==', p)) is True:
            return ZERO
        S.assume_def(cmp0('<=', tm.neg(p)))
        S.assume_def(cmp0('<', tm.sub(p, ONE)))
    return fn('ichi2cdf', d, p)


HALF = Fraction(1, 2)


def _ls(args, kw, nshape=0):
    args = list(args)
    shapes = args[:nshape]
    rest = args[nshape:]
    loc = kw.get('loc', rest[0] if rest else 0)
    scale = kw.get('scale', rest[1] if len(rest) > 1 else 1)
    return shapes, loc, scale


class Frozen:
    def __init__(self, dist, args, kw):
        self.dist, self.a, self.k = dist, args, kw

    def rvs(self, size=None, random_state=None):
        if S.CTX is not None and (hassym(self.a) or hassym(self.k)):
            out = np.empty(size if size is not None else (), dtype=object)
            for i in np.ndindex(out.shape):
                out[i] = self.dist.draw(*self.a, **self.k)
            return out if size is not None else out[()]
        return self.dist.rvs(*self.a, size=1 if size is None else size, random_state=random_state, **self.k)

    def __getattr__(self, n):
        m = getattr(self.dist, n)
        return lambda *x, **k: m(*x, *self.a, **{**self.k, **k})


class DistModel:
    """scipy.stats distribution object: symbolic analytic model, native otherwise"""

    def __init__(self, native):
        self.native = native

    def __call__(self, *a, **k):
        if S.CTX is not None or hassym(a) or hassym(k):
            return Frozen(self, a, k)
        return self.native(*a, **k)

    def __getattr__(self, n):
        sym = getattr(type(self), 's_' + n, None)
        nat = getattr(self.native, n)
        if sym is None:
            def g(*a, **k):
                if hassym(a) or hassym(k):
                    raise Unsupported('scipy.stats %s.%s on symbolic data' % (self.native.name, n))
                return nat(*a, **k)
            return g

        def f(x, *a, **k):
            if hassym(x) or hassym(a) or hassym(k) or S.CTX is not None and n in ('cdf', 'ppf') and isinstance(x, (int, float)):
                shp = getattr(self.native, 'shapes', None)
                if shp in k:
                    k = dict(k)
                    a = (k.pop(shp),) + a
                return elementwise(lambda y: sym(self, y, *a, **k))(x)
            return nat(x, *a, **k)
        return f


def _half_log_2pi():
    return _const(HALF) * R(tm.add(fn('log', const(2)), fn('log', PI)))


class NormM(DistModel):
    def s_logpdf(self, x, *a, **k):
        _, m, s = _ls(a, k)
        z = (x - m) / _const(s) if not is_sym(s) else (x - m) / s
        return -z * z / 2 - _half_log_2pi() - R(tlog(tt(s)))

    def s_pdf(self, x, *a, **k):
        return R(texp(self.s_logpdf(x, *a, **k).t))

    def s_cdf(self, x, *a, **k):
        _, m, s = _ls(a, k)
        return phi_cdf((x - m) / s)

    def s_sf(self, x, *a, **k):
        return 1 - self.s_cdf(x, *a, **k)

    def s_ppf(self, p, *a, **k):
        _, m, s = _ls(a, k)
        return m + s * R(t_iPhi(tt(p)))

    def s_isf(self, p, *a, **k):
        return self.s_ppf(1 - p, *a, **k)

    def s_rvs(self, *a, **k):
        raise Unsupported('random draw')


class UniformM(DistModel):
    def s_logpdf(self, x, *a, **k):
        _, m, s = _ls(a, k)
        if x < m or x > m + s:
            return -math.inf
        return -R(tlog(tt(s)))

    def s_pdf(self, x, *a, **k):
        _, m, s = _ls(a, k)
        if x < m or x > m + s:
            return 0
        return 1 / _const(s)


class HalfnormM(DistModel):
    def s_logpdf(self, x, *a, **k):
        _, m, s = _ls(a, k)
        z = (x - m) / s
        if z < 0:
            return -math.inf
        return -z * z / 2 + _const(HALF) * R(tm.sub(fn('log', const(2)), fn('log', PI))) - R(tlog(tt(s)))

    def s_pdf(self, x, *a, **k):
        r = self.s_logpdf(x, *a, **k)
        return 0 if r == -math.inf else R(texp(r.t))

    def s_cdf(self, x, *a, **k):
        _, m, s = _ls(a, k)
        z = (x - m) / s
        if z < 0:
            return 0
        return 2 * phi_cdf(z) - 1

    def s_ppf(self, p, *a, **k):
        _, m, s = _ls(a, k)
        return m + s * R(t_iPhi(tt((1 + _const(p)) / 2)))


class LognormM(DistModel):
    def s_logpdf(self, x, sh, *a, **k):
        _, m, sc = _ls(a, k)
        y = (x - m) / sc
        if y <= 0:
            return -math.inf
        ly = R(tlog(tt(y)))
        return -ly * ly / (2 * sh * sh) - R(tlog(tt(sh))) - ly - _half_log_2pi() - R(tlog(tt(sc)))

    def s_pdf(self, x, sh, *a, **k):
        r = self.s_logpdf(x, sh, *a, **k)
        return 0 if not is_sym(r) else R(texp(r.t))

    def s_cdf(self, x, sh, *a, **k):
        _, m, sc = _ls(a, k)
        y = (x - m) / sc
        if y <= 0:
            return 0
        return phi_cdf(R(tlog(tt(y))) / sh)

    def s_ppf(self, p, sh, *a, **k):
        _, m, sc = _ls(a, k)
        return m + sc * R(texp(tt(sh * R(t_iPhi(tt(p))))))


class GammaM(DistModel):
    def draw(self, *a, **k):
        a, k = list(a), dict(k)
        if 'a' in k:
            a.insert(0, k.pop('a'))
        _, m, sc = _ls(a[1:], k)
        if S.CTX.ndraw >= 6:
            raise S.Infeasible()        # sampling loops: bounded number of redraws
        u = S.CTX.drawreal(pos=True)
        return m + sc * u

    def s_logpdf(self, x, al, *a, **k):
        _, m, sc = _ls(a, k)
        y = (x - m) / sc
        if y < 0:
            return -math.inf
        if y == 0:
            if al == 1:
                return -R(tlog(tt(sc)))
            return -math.inf if al > 1 else math.inf
        return (al - 1) * R(tlog(tt(y))) - y - R(fn('loggamma', tt(al))) - R(tlog(tt(sc)))

    def s_pdf(self, x, al, *a, **k):
        r = self.s_logpdf(x, al, *a, **k)
        return 0 if not is_sym(r) else R(texp(r.t))

    def s_cdf(self, x, al, *a, **k):
        _, m, sc = _ls(a, k)
        y = (x - m) / sc
        if y <= 0:
            return 0
        return R(t_chi2cdf(tt(2 * al), tt(2 * y)))

    def s_ppf(self, p, al, *a, **k):
        _, m, sc = _ls(a, k)
        return m + sc * R(t_ichi2cdf(tt(2 * al), tt(p))) / 2


class Chi2M(DistModel):
    def s_cdf(self, x, df, *a, **k):
        _, m, sc = _ls(a, k)
        y = (x - m) / sc
        if y <= 0:
            return 0
        return R(t_chi2cdf(tt(df), tt(y)))

    def s_sf(self, x, df, *a, **k):
        return 1 - self.s_cdf(x, df, *a, **k)

    def s_ppf(self, p, df, *a, **k):
        _, m, sc = _ls(a, k)
        return m + sc * R(t_ichi2cdf(tt(df), tt(p)))

    def s_isf(self, p, df, *a, **k):
        return self.s_ppf(1 - p, df, *a, **k)


class MVNormM(DistModel):
    def s_logpdf(self, x, mean=None, cov=1, **k):
        raise Unsupported

    def __getattr__(self, n):
        nat = getattr(self.native, n)

        def logpdf(x, mean=None, cov=1, **k):
            if not (hassym(x) or hassym(mean) or hassym(cov)):
                return nat(x, mean, cov, **k) if not (isinstance(cov, np.ndarray) and cov.dtype == object) else \
                    nat(np.array(x, float), np.array(mean, float), np.array(cov, float), **k)
            X = np.atleast_1d(np.asarray(x, dtype=object))
            M = np.atleast_1d(np.asarray(mean, dtype=object)) if mean is not None else 0
            C = np.atleast_2d(np.asarray(cov, dtype=object))
            d = C.shape[0]

            def one(row):
                z = row - M
                ci = la_inv(C)
                q = 0
                for i in range(d):
                    for j in range(d):
                        q = q + z[i] * ci[i, j] * z[j]
                det = la_det(C)
                return -_const(1) * q / 2 - d * _half_log_2pi() - R(tlog(tt(det))) / 2
            if X.ndim == 1:
                return one(X)
            if X.ndim == 2:
                return np.array([one(r) for r in X], dtype=object)
            raise Unsupported('mvnorm rank')
        if n == 'logpdf':
            return logpdf
        if n == 'pdf':
            return lambda *a, **k: elementwise(lambda y: R(texp(tt(y))))(logpdf(*a, **k)) \
                if hassym(a) or hassym(k) else nat(*a, **k)

        def g(*a, **k):
            if hassym(a) or hassym(k):
                raise Unsupported('multivariate_normal.%s on symbolic data' % n)
            return nat(*a, **k)
        return g


STATS_M = {
    'norm': NormM(scipy.stats.norm), 'uniform': UniformM(scipy.stats.uniform),
    'halfnorm': HalfnormM(scipy.stats.halfnorm), 'lognorm': LognormM(scipy.stats.lognorm),
    'gamma': GammaM(scipy.stats.gamma), 'chi2': Chi2M(scipy.stats.chi2),
    'multivariate_normal': MVNormM(scipy.stats.multivariate_normal),
}


def sp_erf(x):
    if hassym(x):
        return elementwise(lambda y: 2 * phi_cdf(y * R(fn('sqrt', const(2)))) - 1)(x)
    return scipy.special.erf(x)


def sp_loggamma(x):
    if hassym(x):
        return R(fn('loggamma', tt(x)))
    return scipy.special.loggamma(x)


def sp_gammaln(x):
    if hassym(x):
        return R(fn('loggamma', tt(x)))
    return scipy.special.gammaln(x)


def sp_gamma(x):
    if hassym(x):
        return R(texp(fn('loggamma', tt(x))))
    return scipy.special.gamma(x)


def sp_spence(x):
    if hassym(x):
        return S.CTX.ufc('spence', x) if isinstance(x, Z) else S.CTX.uf('spence', x)
    return scipy.special.spence(x)


# ---------------------------------------------------------------- more numpy
def np_outer(a, b, **k):
    if hassym(a) or hassym(b):
        A, B_ = np.asarray(a, dtype=object).ravel(), np.asarray(b, dtype=object).ravel()
        return A[:, None] * B_[None, :]
    return np.outer(a, b, **k)


def np_fill_diagonal(a, v, **k):
    if isinstance(a, np.ndarray) and a.dtype == object:
        for i in range(min(a.shape)):
            a[i, i] = v if np.ndim(v) == 0 else v[i]
        return None
    return np.fill_diagonal(a, v, **k)


def np_piecewise(x, condlist, funclist, *a, **k):
    if hassym(x) or hassym(condlist) or hassym(funclist):
        X = np.asarray(x, dtype=object)
        out = np.empty(X.shape, dtype=object)
        conds = [np.broadcast_to(np.asarray(boolarr(c)), X.shape) for c in condlist]
        for i in np.ndindex(X.shape):
            val = 0
            for c, f in zip(conds, funclist):
                if bool(c[i]):
                    fv = np.asarray(f, dtype=object)
                    val = fv[i] if fv.shape == X.shape else fv.item() if fv.ndim == 0 else fv[i]
            if len(funclist) == len(condlist) + 1 and not any(bool(c[i]) for c in conds):
                val = funclist[-1]
            out[i] = val
        return out if out.shape else out[()]
    return np.piecewise(x, condlist, funclist, *a, **k)


class _EigPos:
    """stands for the eigenvalues of a symbolic symmetric matrix; only comparison with 0 is available"""

    def __init__(self, a):
        self.a = a

    def __gt__(self, o):
        if isinstance(o, (int, float)) and o == 0:
            m = _mat(np.asarray(self.a, dtype=object))
            for i in range(len(m)):
                for j in range(i):
                    if not same(tt(m[i][j]), tt(m[j][i]), 4000):
                        raise Unsupported('eigenvalues of a matrix not known to be symmetric')
            for M in getattr(S.CTX, 'pdmats', ()):
                if len(M) == len(m) and congruent(m, M):
                    return True
            fs = []
            for k in range(1, len(m) + 1):
                d = det_list([r[:k] for r in m[:k]])
                fs.append(cmp0('<', tm.neg(tt(d))))
            return mkb(f_and(*fs))
        raise Unsupported('eigenvalues of a symbolic matrix')


def congruent(a, M):
    """a = D M D with a positive diagonal matrix D: positive definite iff M is"""
    n = len(a)
    for i in range(n):
        if not (a[i][i] > 0) or not (M[i][i] > 0):
            return False
    for i in range(n):
        for j in range(i):
            d = tm.sub(tm.mul(tm.mul(tt(a[i][j]), fn('sqrt', tt(M[i][i]))), fn('sqrt', tt(M[j][j]))),
                       tm.mul(tm.mul(tt(M[i][j]), fn('sqrt', tt(a[i][i]))), fn('sqrt', tt(a[j][j]))))
            if not same(d, tm.ZERO, 20000):
                return False
    return True


def la_eigs(native):
    def f(a, *r, **k):
        if hassym(a):
            return _EigPos(a)
        if isinstance(a, np.ndarray) and a.dtype == object:
            a = a.astype(float)
        return native(a, *r, **k)
    return f


def la_slogdet(a):
    if hassym(a):
        d = la_det(a)
        if d > 0:
            return 1, R(tlog(tt(d)))
        if d < 0:
            return -1, R(tlog(tt(-d)))
        return 0, -math.inf
    if isinstance(a, np.ndarray) and a.dtype == object:
        a = a.astype(float)
    return np.linalg.slogdet(a)


def np_ndim(x):
    return 0 if isinstance(x, (R, Z, B)) else np.ndim(x)


# random draws: any value the generator can return
def rnd(kind):
    nat = getattr(np.random, kind)

    def f(*a, size=None, **k):
        if S.CTX is None:
            return nat(*a, size=size, **k) if size is not None else nat(*a, **k)
        a = list(a)
        nargs = {'uniform': 2, 'normal': 2, 'lognormal': 2, 'randint': 2}[kind]
        if len(a) > nargs:
            size = a[nargs]
        names = {'uniform': ('low', 'high'), 'normal': ('loc', 'scale'), 'lognormal': ('mean', 'sigma'), 'randint': ('low', 'high')}[kind]
        d = dict(zip(names, a[:nargs]))
        d.update(k)
        dflt = {'uniform': (0, 1), 'normal': (0, 1), 'lognormal': (0, 1), 'randint': (0, None)}[kind]

        def one():
            u = S.CTX.draw01()
            if kind == 'uniform':
                lo, hi = d.get('low', dflt[0]), d.get('high', dflt[1])
                return lo + (hi - lo) * u
            if kind == 'normal':
                return d.get('loc', 0) + d.get('scale', 1) * S.CTX.drawreal()
            if kind == 'lognormal':
                return R(texp(tt(d.get('mean', 0) + d.get('sigma', 1) * S.CTX.drawreal())))
            raise Unsupported('random.' + kind)
        if size is None:
            return one()
        out = np.empty(size, dtype=object)
        for i in np.ndindex(out.shape):
            out[i] = one()
        return out
    return f


RANDOM_M = {k: rnd(k) for k in ('uniform', 'normal', 'lognormal')}


# ---------------------------------------------------------------- builtins
def b_isinstance(x, c):
    if isinstance(x, R):
        cs = c if isinstance(c, tuple) else (c,)
        flat = []
        for k in cs:
            flat.extend(k if isinstance(k, tuple) else [k])
        import numbers
        return any(k in (float, R, object, numbers.Number, numbers.Real, numbers.Complex, b_float,
                         np.floating, np.number) for k in flat)
    if isinstance(x, Z):
        cs = c if isinstance(c, tuple) else (c,)
        import numbers
        return any(k in (complex, Z, object, numbers.Number, numbers.Complex, b_complex, np.complexfloating,
                         np.number) for k in cs)
    cs = c if isinstance(c, tuple) else (c,)
    cs = tuple(float if k is b_float else complex if k is b_complex else int if k is b_int else k for k in cs)
    return isinstance(x, cs)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, R))

    def __call__(cls, x=0.0):
        if isinstance(x, R):
            return x
        if isinstance(x, Z):
            raise TypeError("can't convert complex to float")
        if isinstance(x, B):
            return R(const(1 if bool(x) else 0))
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return cls(x.item())
        return float(x)


class b_float(float, metaclass=_FloatMeta):
    pass


class _ComplexMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (complex, Z))

    def __call__(cls, a=0, b=0):
        if isinstance(a, (R, Z)) or isinstance(b, (R, Z)):
            a_ = Z(*zz(a))
            return a_ if isinstance(b, (int, float)) and b == 0 else a_ + Z(ZERO, ONE) * b
        if isinstance(a, str):
            return complex(a)
        return complex(a, b) if b != 0 else complex(a)


class b_complex(complex, metaclass=_ComplexMeta):
    pass


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __call__(cls, *a, **k):
        return int(*a, **k)


class b_int(int, metaclass=_IntMeta):
    pass


class Interp1d:
    """scipy.interpolate.interp1d (linear) on a grid with symbolic nodes or a symbolic argument"""

    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=None, assume_sorted=False):
        import scipy.interpolate
        self.native = None
        if not hassym(x) and not hassym(y):
            kw = {} if fill_value is None else {'fill_value': fill_value}
            self.native = scipy.interpolate.interp1d(np.asarray(x, dtype=float), np.asarray(y, dtype=float), kind=kind,
                                                     bounds_error=bounds_error, assume_sorted=assume_sorted, **kw)
        if kind != 'linear':
            raise Unsupported('interp1d kind ' + str(kind))
        self.x, self.y = list(np.asarray(x, dtype=object)), list(np.asarray(y, dtype=object))
        if len(self.x) != len(self.y):
            raise ValueError('x and y arrays must be equal in length along interpolation axis.')
        for a, b in zip(self.x, self.x[1:]):
            if not (a <= b):
                raise Unsupported('interp1d on a grid not known to be sorted')
        self.bounds_error = (fill_value is None) if bounds_error is None else bounds_error
        self.fill = math.nan if fill_value is None else fill_value

    def one(self, q):
        x, y = self.x, self.y
        lo, hi = self.fill if isinstance(self.fill, tuple) else (self.fill, self.fill)
        if q < x[0] or q > x[-1]:
            if self.bounds_error:
                raise ValueError('A value in x_new is outside the interpolation range.')
            return lo if q < x[0] else hi
        for i in range(1, len(x)):
            if i == len(x) - 1 or q <= x[i]:
                return y[i - 1] + (y[i] - y[i - 1]) * ((q - x[i - 1]) / (x[i] - x[i - 1]))

    def __call__(self, q):
        if self.native is not None and not hassym(q):
            return self.native(q)
        return elementwise(self.one)(q)


class RegularGrid:
    """scipy.interpolate.RegularGridInterpolator (multilinear) with symbolic nodes, values or arguments"""

    def __init__(self, points, values, method='linear', bounds_error=True, fill_value=math.nan):
        import scipy.interpolate
        self.native = None
        if not hassym(list(points)) and not hassym(values):
            self.native = scipy.interpolate.RegularGridInterpolator([np.asarray(p, dtype=float) for p in points], np.asarray(values, dtype=float),
                                                                    method=method, bounds_error=bounds_error, fill_value=fill_value)
        if method != 'linear':
            raise Unsupported('RegularGridInterpolator method ' + str(method))
        self.grid = [list(np.asarray(p, dtype=object)) for p in points]
        self.values = np.array(values, dtype=object)
        if self.values.shape != tuple(len(g) for g in self.grid):
            raise ValueError('dimensions of points and values do not match')
        for g in self.grid:
            for a, b in zip(g, g[1:]):
                if not a < b:
                    raise ValueError('points must be strictly ascending')
        self.be, self.fill = bounds_error, fill_value

    def one(self, q):
        cells = []
        for g, x in zip(self.grid, q):
            if x < g[0] or x > g[-1]:
                if self.be:
                    raise ValueError('One of the requested xi is out of bounds')
                return self.fill
        for g, x in zip(self.grid, q):
            for i in range(1, len(g)):
                if i == len(g) - 1 or x < g[i]:
                    w = (x - g[i - 1]) / (g[i] - g[i - 1])
                    cells.append(((i - 1, 1 - w), (i, w)))
                    break
        r = 0
        for c in itertools.product(*cells):
            w = 1
            for _, u in c:
                w = w * u
            if not is_sym(w) and w == 0:
                continue
            r = r + w * self.values[tuple(i for i, _ in c)]
        return r

    def __call__(self, q):
        if self.native is not None and not hassym(q):
            return self.native(q)
        a = np.asarray(q, dtype=object)
        if a.ndim == 1:
            return np.array([self.one(a)], dtype=object)
        out = np.empty(a.shape[:-1], dtype=object)
        for i in np.ndindex(out.shape):
            out[i] = self.one(a[i])
        return out


def np_linspace(start, stop, num=50, **k):
    if hassym(start) or hassym(stop):
        if k or isinstance(start, np.ndarray) or isinstance(stop, np.ndarray):
            raise Unsupported('np.linspace options on symbolic data')
        n = int(num)
        out = np.empty(n, dtype=object)
        for i in range(n):
            out[i] = start if i == 0 else stop if i == n - 1 else start + (stop - start) * _const(Fraction(i, n - 1))
        return out
    return np.linspace(start, stop, num, **k)


def np_isneginf(x, *a, **k):
    if hassym(x):
        r = elementwise(lambda y: False if isinstance(y, (R, Z, B)) else bool(np.isneginf(y)))(x)
        return r.astype(bool) if isinstance(r, np.ndarray) else r
    return np.isneginf(np.asarray(x, dtype=float) if getattr(x, 'dtype', None) == object else x, *a, **k)


def brentq(f, a, b, *r, **k):
    """contract: a root of f inside [a, b], ValueError if f has the same sign at both ends"""
    import scipy.optimize
    if S.CTX is None:
        return scipy.optimize.brentq(f, a, b, *r, **k)
    if r or k:
        raise Unsupported('brentq options')
    fa, fb = f(a), f(b)
    if fa == 0:
        return a
    if fb == 0:
        return b
    if not is_sym(fa) and not is_sym(fb):
        bad = (fa > 0) == (fb > 0)
    else:
        bad = bool(fa > 0) == bool(fb > 0)
    if bad:
        raise ValueError('f(a) and f(b) must have different signs')
    x = S.CTX.drawreal()
    S.CTX.assume(cmp0('<', tm.sub(tt(a), tt(x))))
    S.CTX.assume(cmp0('<', tm.sub(tt(x), tt(b))))
    y = f(x)
    if not is_sym(y) and not np.isfinite(y):
        raise S.Infeasible()        # not a root
    S.CTX.assume(cmp0('==', tt(y)))
    return x


def b_sum(it, start=0):
    return builtins.sum(it, start)


def vectorized(pyfunc):
    native = np.vectorize(pyfunc)

    def f(*a, **k):
        if not (hassym(a) or hassym(k)):
            return native(*a, **k)
        arrs = np.broadcast_arrays(*[np.asarray(x, dtype=object) for x in a])
        out = np.empty(arrs[0].shape, dtype=object)
        for i in np.ndindex(out.shape):
            out[i] = pyfunc(*[x[i] for x in arrs], **k)
        return out if out.shape else out[()]
    f.pyfunc = pyfunc
    return f


def np_vectorize(pyfunc=None, *a, **k):
    if pyfunc is None:
        return lambda g: np_vectorize(g, *a, **k)
    if a or k:
        return np.vectorize(pyfunc, *a, **k)
    return vectorized(pyfunc)


# ---------------------------------------------------------------- tables
def build():
    M = {}

    def reg(native, model):
        M[id(native)] = (native, model)
    mmod = {}
    for name, tf in [('sqrt', tsqrt), ('exp', texp), ('sin', tsin), ('cos', tcos), ('log10', tlog10),
                     ('atan', tatan), ('tan', ttan), ('atanh', tatanh), ('asin', tasin), ('acos', tacos),
                     ('sinh', opaque1('sinh')), ('cosh', opaque1('cosh')), ('tanh', opaque1('tanh'))]:
        mmod[name] = real1(name, tf, getattr(math, name))
        reg(getattr(math, name), mmod[name])
    mmod['fabs'] = lambda x: abs(x) if is_sym(x) else math.fabs(x)
    mmod['log'] = m_log
    mmod['atan2'] = atan2
    mmod['pow'] = m_pow
    mmod['isnan'] = lambda x: False if is_sym(x) else math.isnan(x)
    mmod['isinf'] = lambda x: False if is_sym(x) else math.isinf(x)
    mmod['gamma'] = sp_gamma
    mmod['lgamma'] = sp_gammaln
    mmod['erf'] = sp_erf
    for n in ('fabs', 'log', 'atan2', 'pow', 'isnan', 'isinf'):
        reg(getattr(math, n), mmod[n])
    cmod = {'sqrt': cm('csqrt', zsqrt, cmath.sqrt), 'exp': cm('cexp', zexp, cmath.exp), 'log': cm_log, 'phase': phase, 'atan': cm_atan}
    for n in cmod:
        reg(getattr(cmath, n), cmod[n])
    npm = {
        'sqrt': cplx1('sqrt', zsqrt, tsqrt, np.sqrt), 'exp': cplx1('exp', zexp, texp, np.exp),
        'log': cplx1('log', zlog, tlog, np.log),
        'log10': real1('log10', tlog10, np.log10), 'sin': real1('sin', tsin, np.sin), 'cos': real1('cos', tcos, np.cos),
        'tan': real1('tan', ttan, np.tan), 'arctan': real1('arctan', tatan, np.arctan),
        'arcsin': real1('arcsin', tasin, np.arcsin), 'arccos': real1('arccos', tacos, np.arccos),
        'arctan2': atan2, 'isnan': np_isnan, 'isinf': np_isinf, 'isfinite': np_isfinite, 'isneginf': np_isneginf, 'linspace': np_linspace, 'isscalar': np_isscalar,
        'iscomplex': np_iscomplex, 'iscomplexobj': np_iscomplexobj,
        'conj': np_conj, 'conjugate': np_conj, 'real': np_real, 'imag': np_imag, 'abs': np_abs, 'absolute': np_abs,
        'angle': np_angle, 'max': np_minmax(_max2, np.max), 'amax': np_minmax(_max2, np.amax),
        'min': np_minmax(_min2, np.min), 'amin': np_minmax(_min2, np.amin),
        'maximum': np_pair(_max2, np.maximum), 'minimum': np_pair(_min2, np.minimum), 'where': np_where,
        'all': np_all, 'any': np_any, 'sign': np_sign, 'array': np_array, 'asarray': np_asarray,
        'zeros': mkfilled(np.zeros), 'ones': mkfilled(np.ones), 'eye': mkfilled(np.eye),
        'identity': mkfilled(np.identity), 'zeros_like': mkfilled(np.zeros_like), 'ones_like': mkfilled(np.ones_like),
        'empty': np_empty, 'sum': np_sum, 'mean': np_mean, 'cov': np_cov, 'std': np_std, 'var': np_var, 'full': np_full, 'average': np_average, 'allclose': np_allclose,
        'array_equal': np_array_equal, 'interp': np_interp,
        'vectorize': np_vectorize,
        'outer': np_outer, 'fill_diagonal': np_fill_diagonal, 'piecewise': np_piecewise, 'ndim': np_ndim,
        'square': lambda x: x * x if hassym(x) else np.square(x),
        'power': lambda a, b: a ** b if hassym(a) or hassym(b) else np.power(a, b),
    }
    for n in npm:
        reg(getattr(np, n), npm[n])
    lam = {'inv': la_inv, 'det': la_det, 'solve': la_solve, 'eigvalsh': la_eigs(np.linalg.eigvalsh),
           'eigvals': la_eigs(np.linalg.eigvals), 'slogdet': la_slogdet}
    for n in lam:
        reg(getattr(np.linalg, n), lam[n])
    spm = {'spence': sp_spence, 'erf': sp_erf, 'loggamma': sp_loggamma, 'gammaln': sp_gammaln, 'gamma': sp_gamma}
    for n in spm:
        reg(getattr(scipy.special, n), spm[n])
    reg(scipy.interpolate.interp1d, Interp1d)
    reg(scipy.interpolate.RegularGridInterpolator, RegularGrid)
    reg(scipy.optimize.brentq, brentq)
    for n, d in STATS_M.items():
        reg(d.native, d)
    return M, mmod, cmod, npm, lam, spm


class Proxy(types.ModuleType):
    def __init__(self, mod, over):
        super().__init__(mod.__name__)
        object.__setattr__(self, '_m', mod)
        object.__setattr__(self, '_o', over)

    def __getattr__(self, n):
        o = object.__getattribute__(self, '_o')
        if n in o:
            return o[n]
        return getattr(object.__getattribute__(self, '_m'), n)
