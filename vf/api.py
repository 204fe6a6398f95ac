"""Harness API.  A harness is an executable contract: it draws arbitrary inputs, states the
precondition (assume), runs the real function and states the postcondition (ensure).
The same harness runs symbolically (obligations for all inputs) and natively (replay)."""
import math
import os
import sys
import random
import re
import time
import traceback
import numpy as np
from . import term as tm
from .term import *
from . import sym as S
from . import models
from .sym import R, Z, B, Ctx, ff, mkb, tt, zz, eqf, Unsupported, Infeasible, PathLimit

HARNESSES = {}
HERE = os.path.dirname(os.path.abspath(__file__))


MISSING = object()


def restore(o, n, x):
    if x is MISSING:
        delattr(o, n)
    else:
        setattr(o, n, x)


class Reject(Exception):
    pass


class Harness:
    def __init__(self, prop, name, f, targets, uses, level, opts, note):
        self.prop, self.name, self.f = prop, name, f
        self.targets, self.uses, self.level, self.opts, self.note = targets, uses, level, opts, note


def harness(prop, name=None, targets=(), uses=(), level='proof', note='', **opts):
    def deco(f):
        n = name or f.__name__
        key = (prop, n)
        if key in HARNESSES:
            raise RuntimeError('duplicate harness %s/%s' % key)
        HARNESSES[key] = Harness(prop, n, f, list(targets), list(uses), level, opts, note)
        return f
    return deco


# parameters whose value is positive by definition (masses, lifetimes, decay constants, couplings)
POSPAR = re.compile(r'^(m_|tau_|f_|f_perp|GF$|alpha_e$|alpha_s$|Vus$|Vcb$|Vub$|GammaW|kappa_|s2w$|GammaT|bag_|lambda_B)')

_defpar = None


def default_par():
    global _defpar
    if _defpar is None:
        import flavio
        _defpar = dict(flavio.default_parameters.get_central_all())
    return _defpar


class ParDict(dict):
    """arbitrary parameter values: every key of the real parameter set (and any other key read)
    is an unconstrained real, positive where POSPAR says so"""

    def __init__(self, v, pre='par', base=None, fixed=()):
        super().__init__(base or {})
        self.v, self.pre = v, pre
        self.touched = set()

    def __missing__(self, k):
        x = self.v.parvar(self.pre, k)
        dict.__setitem__(self, k, x)
        return x

    def get(self, k, d=None):
        if k in default_par() or dict.__contains__(self, k):
            return self[k]
        return d

    def copy(self):
        return ParDict(self.v, self.pre, base=dict(dict.items(self)))
    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def __contains__(self, k):
        return k in default_par() or dict.__contains__(self, k)

    def _all(self):
        for k in default_par():
            self[k]

    def __iter__(self):
        self._all()
        return dict.__iter__(self)

    def keys(self):
        self._all()
        return dict.keys(self)

    def items(self):
        self._all()
        return dict.items(self)

    def values(self):
        self._all()
        return dict.values(self)

    def __len__(self):
        self._all()
        return dict.__len__(self)

    def pop(self, k, *d):
        if k in self:
            self[k]
        return dict.pop(self, k, *d)


class SymV(Ctx):
    mode = 'sym'
    sym = True
    shard = None

    def start(self, prefix):
        super().start(prefix)
        self.swap = None
        self.choices = {}
        if not hasattr(self, 'offered'):
            self.offered, self.covered = set(), set()     # options of choices that were taken / on which an obligation was reached
        self.ndraw = 0

    def draw01(self):
        """a random draw: any value in [0,1)"""
        self.ndraw += 1
        x = self.real('rnd%d' % self.ndraw, dom=(0.001, 0.999))
        self.assume(cmp0('<=', tm.neg(x.t)))
        self.assume(cmp0('<', tm.sub(x.t, ONE)))
        return x

    def drawreal(self, pos=False):
        self.ndraw += 1
        return self.real('rnd%d' % self.ndraw, pos=pos, dom=(0.01, 3) if pos else (-2, 2))

    # ---- inputs
    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, dom=None, free=False):
        """an arbitrary real; lo/hi are preconditions unless free=True (then only sampling hints)"""
        x = R(var(name))
        if name not in self.domains:
            a = lo if lo is not None else (0.05 if pos or nonneg else -2.0)
            b = hi if hi is not None else (a + 3.0)
            if dom:
                a, b = dom
            a, b = float(a), float(b)
            self.domains[name] = lambda rng, a=a, b=b: rng.uniform(a, b)
        if not free:
            if lo is not None:
                self.assume(cmp0('<=', tm.sub(const(lo), x.t)))
            if hi is not None:
                self.assume(cmp0('<=', tm.sub(x.t, const(hi))))
        if pos:
            self.assume(cmp0('<', tm.neg(x.t)))
        elif nonneg:
            self.assume(cmp0('<=', tm.neg(x.t)))
        return x

    def cplx(self, name, scale=1.0):
        a = self.real(name + '.re', dom=(-2 * scale, 2 * scale))
        b = self.real(name + '.im', dom=(-2 * scale, 2 * scale))
        return Z(a.t, b.t)

    def parvar(self, pre, k):
        c = default_par().get(k)
        pos = bool(POSPAR.match(k))
        if c is None:
            dom = (0.2, 2.0) if pos else (-1.0, 1.0)
        elif c == 0:
            dom = (-0.5, 0.5)
        else:
            dom = tuple(sorted((0.75 * c, 1.25 * c)))
        return self.real('%s.%s' % (pre, k), pos=pos, dom=dom)

    def par(self, pre='par', **over):
        p = ParDict(self, pre)
        for k, x in over.items():
            dict.__setitem__(p, k, x)
        return p

    def boolean(self, name, rec=True):
        """arbitrary boolean, by path splitting"""
        x = self._boolean(name)
        if rec:
            self.choices[name] = x
        return x

    def _boolean(self, name):
        f = F('b', name)
        if f.key() in self.pckeys:
            return True
        if fnot(f).key() in self.pckeys:
            return False
        i = self.n
        self.n += 1
        if i < len(self.prefix):
            val = self.prefix[i]
        else:
            val = True
            self.alts.append(self.trace + [False])
        self.trace.append(val)
        k = (f if val else fnot(f))
        self.pckeys.add(k.key())
        return val

    def choice(self, name, options):
        """arbitrary element of a finite list (exhaustive split)"""
        options = list(enumerate(options))
        if self.shard and self.shard[0] == name:     # this worker handles its share of the options
            options = [(i, o) for i, o in options if i % self.shard[1] == self.shard[2]]
        for i, o in options[:-1]:
            if self.boolean('%s=%d' % (name, i), False):
                self.choices['choice:' + name] = i
                self.offered.add(('choice:' + name, i))
                return o
        self.choices['choice:' + name], o = options[-1]
        self.offered.add(('choice:' + name, options[-1][0]))
        return o

    def uf(self, name, *args, pos=False, dom=None):
        """an arbitrary function of its arguments (deterministic, otherwise unconstrained)"""
        ts = []
        for a in args:
            if isinstance(a, str):
                ts.append(a)
            elif isinstance(a, (Z, complex)):
                ts.extend(zz(a))
            else:
                ts.append(tt(a))
        if dom:
            self.ufdom[name] = dom
        elif pos:
            self.ufdom[name] = (0.1, 3.0)
        r = R(mk('uf', name, *ts))
        if pos:
            self.assume(cmp0('<', tm.neg(r.t)))
        return r

    def ufc(self, name, *args, dom=None):
        return Z(self.uf(name + '.re', *args, dom=dom).t, self.uf(name + '.im', *args, dom=dom).t)

    # ---- statements
    def assume_(self, c):
        self.assume(ff(c))

    def nonzero(self, x):
        """precondition x != 0, also used to recognise the same expression in another form"""
        self.assume(fnot(ff(eqf(x, 0))))
        self.nonzeros.append(tt(x))

    def require(self, c):
        self.assume(ff(c))

    def ensure(self, name, c):
        try:
            f = ff(c)
        except Unsupported:
            f = TRUE if c else FALSE
        return self.check(name, f)

    def lemma(self, name, c):
        """prove, then use"""
        r = self.ensure(name, c)
        if r.status == 'proved':
            self.assume(ff(c))

    def pd(self, name, m):
        """the symmetric matrix m is proved positive definite (Sylvester), or is an unproved consequence below"""
        self.lemma(name, models._EigPos(m) > 0)

    def pd_sum(self, name, *ms):
        """theorem used: a sum of positive definite matrices is positive definite"""
        for i, m in enumerate(ms):
            self.pd('%s %d' % (name, i), m)
        t = sum(ms[1:], ms[0])
        self.assume(ff(models._EigPos(t) > 0))
        self.pdmats = list(getattr(self, 'pdmats', ())) + [models._mat(t), models._mat(models.la_inv(t))]

    def deriv(self, f, x, u=None):
        """df/dx at the point x; x must be an input variable, or depend on the input variable u while f does not"""
        from .diff import diff
        y = f(x)
        u = x if u is None else u
        if u.t.op != 'v':
            raise S.Unsupported('derivative with respect to an expression')
        if not S.is_sym(y):
            return 0
        r = R(diff(tt(y), u.t))
        return r if u is x else r / R(diff(tt(x), u.t))

    def eq(self, a, b, tol=None, scale=None):
        return mkb(eqn(a, b))

    def ge(self, a, b, tol=None):
        return mkb(cmp0('<=', tm.sub(tt(b), tt(a))))

    def le(self, a, b, tol=None):
        return self.ge(b, a)

    def gt(self, a, b):
        return mkb(cmp0('<', tm.sub(tt(b), tt(a))))

    def and_(self, *cs):
        return mkb(f_and(*[ff(c) for c in cs]))

    def or_(self, *cs):
        return mkb(f_or(*[ff(c) for c in cs]))

    def not_(self, c):
        return mkb(fnot(ff(c)))

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def contract(self, f, handler, name=None):
        """callee contract: inside this harness calls to f use `handler`, not the body"""
        from .patch import Swap
        if isinstance(f, str):
            import importlib
            m, _, n = f.partition(':')
            try:
                f = importlib.import_module(m)
                for x in n.split('.'):
                    f = getattr(f, x)
            except (ImportError, AttributeError):
                return      # callee gone: the caller is verified against whatever replaced it
        if self.swap is None:
            self.swap = Swap()
        self.swap.swap(f, handler, name)

    def setattr(self, obj, name, val):
        """substitute an attribute in both modes"""
        self.undo.append((obj, name, getattr(obj, name, MISSING)))
        setattr(obj, name, val)

    def setattr_sym(self, obj, name, val):
        self.undo.append((obj, name, getattr(obj, name, MISSING)))
        setattr(obj, name, val)

    def fsqrt(self, x):
        return R(S.tsqrt(tt(x)))

    def flog(self, x):
        return R(S.tlog(tt(x)))

    def fexp(self, x):
        return S.zexp(x) if isinstance(x, Z) else R(S.texp(tt(x)))

    def fcos(self, x):
        return R(S.tcos(tt(x)))

    def fsin(self, x):
        return R(S.tsin(tt(x)))

    def Phi(self, x):
        from .models import phi_cdf
        return phi_cdf(x)

    @property
    def pi(self):
        return R(PI)

    def num(self, x):
        """exact rational constant, e.g. num('1/3')"""
        from fractions import Fraction
        return R(const(Fraction(x)))

    def i(self):
        return Z(ZERO, ONE)

    def run_all(self, h):
        def go(v):
            v.undo = []
            v.pdmats = []
            try:
                h.f(v)
            finally:
                if v.swap is not None:
                    v.swap.restore()
                    v.swap = None
                for o, n, x in reversed(v.undo):
                    restore(o, n, x)
                v.undo = []
        self.run(go)
        if os.environ.get('VF_VACUITY'):
            for n, i in sorted(self.offered - self.covered):
                print('VACUOUS', h.name, n, i, file=sys.stderr, flush=True)


def eqn(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        A, B_ = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        if A.shape != B_.shape:
            return FALSE
        return f_and(*[eqn(x, y) for x, y in zip(A.flat, B_.flat)])
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return FALSE
        return f_and(*[eqn(x, y) for x, y in zip(a, b)])
    if isinstance(a, float) and (math.isinf(a) or math.isnan(a)) or isinstance(b, float) and (math.isinf(b) or math.isnan(b)):
        return TRUE if not S.is_sym(a) and not S.is_sym(b) and a == b else FALSE
    if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
        return TRUE if a == b else FALSE
    return eqf(a, b)


class NatFail(Exception):
    pass


class NatV:
    """native run of a harness on the unmodified code with concrete inputs"""

    def pd(self, name, m):
        self.ensure(name, np.all(np.linalg.eigvalsh(np.array(m, dtype=float)) > -1e-12))

    def pd_sum(self, name, *ms):
        pass

    def deriv(self, f, x, u=None):
        h = 1e-5 * max(1e-2, abs(x))
        return float(8 * (f(x + h) - f(x - h)) - (f(x + 2 * h) - f(x - 2 * h))) / (12 * h)
    mode = 'native'
    sym = False

    def __init__(self, rng, values=None):
        self.rng = rng
        self.values = dict(values or {})
        self.used = {}
        self.failures = []
        self.nensure = 0
        self.undo = []
        self.bools = {}

    def _val(self, name, draw):
        if name in self.used:
            return self.used[name]
        x = self.values[name] if name in self.values else draw()
        self.used[name] = x
        return x

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, dom=None, free=False):
        a = lo if lo is not None else (0.05 if pos or nonneg else -2.0)
        b = hi if hi is not None else (a + 3.0)
        if dom:
            a, b = dom
        x = self._val(name, lambda: self.rng.uniform(float(a), float(b)))
        x = float(Fraction(x)) if isinstance(x, str) else float(x)
        if not free:
            if lo is not None and x < lo or hi is not None and x > hi:
                raise Reject()
        if pos and x <= 0 or nonneg and x < 0:
            raise Reject()
        return x

    def cplx(self, name, scale=1.0):
        a = self.real(name + '.re', dom=(-2 * scale, 2 * scale))
        b = self.real(name + '.im', dom=(-2 * scale, 2 * scale))
        return complex(a, b)

    def parvar(self, pre, k):
        c = default_par().get(k)
        pos = bool(POSPAR.match(k))
        if c is None:
            dom = (0.2, 2.0) if pos else (-1.0, 1.0)
        elif c == 0:
            dom = (-0.5, 0.5)
        else:
            dom = tuple(sorted((0.97 * c, 1.03 * c)))
        return self.real('%s.%s' % (pre, k), pos=pos, dom=dom)

    def par(self, pre='par', **over):
        d = {}
        for k in default_par():
            d[k] = self.parvar(pre, k)
        for n in self.values:
            if n.startswith(pre + '.') and n[len(pre) + 1:] not in d:
                d[n[len(pre) + 1:]] = self.parvar(pre, n[len(pre) + 1:])
        d.update(over)
        return NatPar(self, pre, d)

    def boolean(self, name):
        if name not in self.used:
            self.used[name] = bool(self.values[name]) if name in self.values else self.rng.random() < 0.5
        return self.used[name]

    def choice(self, name, options):
        options = list(options)
        k = 'choice:' + name
        if k not in self.used:
            self.used[k] = self.values[k] if k in self.values else self.rng.randrange(len(options))
        return options[self.used[k]]

    def uf(self, name, *args, pos=False, dom=None):
        from .numeval import ufval
        import mpmath
        a = []
        for x in args:
            if isinstance(x, complex):
                a += [mpmath.mpf(x.real), mpmath.mpf(x.imag)]
            else:
                a.append(x if isinstance(x, str) else mpmath.mpf(float(x)))
        d = dom or ((0.1, 3.0) if pos else (-2, 2))
        return float(ufval(name, [x if isinstance(x, str) else mpmath.mpf(mpmath.nstr(x, 9)) for x in a],
                           self.values.get('__ufseed__', 0), d))

    def ufc(self, name, *args, dom=None):
        return complex(self.uf(name + '.re', *args, dom=dom), self.uf(name + '.im', *args, dom=dom))

    def assume_(self, c):
        if not bool(c):
            raise Reject()
    require = assume_

    def nonzero(self, x):
        pass

    def assume(self, c):
        if not bool(c):
            raise Reject()

    def ensure(self, name, c):
        self.nensure += 1
        if not bool(c):
            self.failures.append(name)

    lemma = ensure

    def eq(self, a, b, tol=1e-6, scale=None):
        tol = tol or 1e-6
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            A, B_ = np.asarray(a), np.asarray(b)
            if A.shape != B_.shape:
                return False
            return all(self.eq(x, y, tol, scale) for x, y in zip(A.flat, B_.flat))
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.eq(x, y, tol, scale) for x, y in zip(a, b))
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return a == b
        if a == b:
            return True
        if not (np.isfinite(a) and np.isfinite(b)):
            if np.isnan(a) or np.isnan(b):
                raise Reject()      # outside the domain of definition
            return False
        m = max(abs(a), abs(b), abs(scale) if scale is not None else 0.0)
        return abs(a - b) <= tol * m + 1e-300

    def _finite(self, a, b):
        if a != a or b != b or abs(a) == math.inf and abs(b) == math.inf:
            raise Reject()

    def ge(self, a, b, tol=1e-9):
        self._finite(a, b)
        if math.inf in (abs(a), abs(b)):
            return a >= b
        return a >= b - (tol or 1e-9) * max(abs(a), abs(b), 1e-30)

    def le(self, a, b, tol=1e-9):
        return self.ge(b, a, tol)

    def gt(self, a, b):
        self._finite(a, b)
        return a >= b - 1e-12 * max(abs(a), abs(b))     # strictness is lost to rounding

    def and_(self, *c):
        return all(bool(x) for x in c)

    def or_(self, *c):
        return any(bool(x) for x in c)

    def not_(self, c):
        return not bool(c)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def contract(self, f, handler, name=None):
        pass

    def setattr(self, obj, name, val):
        self.undo.append((obj, name, getattr(obj, name, MISSING)))
        setattr(obj, name, val)

    def setattr_sym(self, obj, name, val):
        pass

    def fsqrt(self, x):
        return math.sqrt(x)

    def flog(self, x):
        return math.log(x)

    def fexp(self, x):
        import cmath
        return cmath.exp(x) if isinstance(x, complex) else math.exp(x)

    def fcos(self, x):
        return math.cos(x)

    def fsin(self, x):
        return math.sin(x)

    def Phi(self, x):
        import scipy.stats
        return float(scipy.stats.norm.cdf(x))

    pi = math.pi

    def num(self, x):
        from fractions import Fraction
        return float(Fraction(x))

    def i(self):
        return 1j


class NatPar(dict):
    def __init__(self, v, pre, d):
        super().__init__(d)
        self.v, self.pre = v, pre

    def __missing__(self, k):
        if self.pre + '.' + k in self.v.values:
            x = self.v.parvar(self.pre, k)
            self[k] = x
            return x
        raise KeyError(k)

    def copy(self):
        return NatPar(self.v, self.pre, dict(self))


def run_native(h, rng, values=None):
    """-> (status, used values, failures)   status: ok | fail | reject | error"""
    v = NatV(rng, values)
    try:
        h.f(v)
    except Reject:
        return 'reject', v.used, []
    except (ZeroDivisionError, OverflowError):
        return ('fail' if v.failures else 'reject'), v.used, v.failures
    except Exception as e:
        if v.failures:
            return 'fail', v.used, v.failures
        tb = e.__traceback__
        while tb.tb_next is not None:
            tb = tb.tb_next
        fn = tb.tb_frame.f_code.co_filename
        st = 'error'
        if os.path.dirname(os.path.abspath(fn)) in (HERE, os.path.join(os.path.dirname(HERE), 'specs')) and (
                isinstance(e, (AttributeError, ImportError, NameError)) or isinstance(e, TypeError) and 'argument' in str(e)):
            st = 'mismatch'     # the contract names something the code no longer has: not a failing input
        return st, v.used, ['exception %s: %s' % (type(e).__name__, e), traceback.format_exc()[-1500:]]
    finally:
        for o, n, x in reversed(v.undo):
            restore(o, n, x)
    if v.failures:
        return 'fail', v.used, v.failures
    return 'ok', v.used, []
