"""Symbolic values executed by the real CPython bytecode of flavio, and the path explorer."""
import cmath
import math
import numbers
import random
import time
from fractions import Fraction
import numpy as np
from .term import *
from . import term as tm
from . import solve
from .solve import Sampler, Facts, prove, z3_check, Result


class Unsupported(TypeError):
    """the engine cannot follow the code here (never a verdict about the code)"""


class Infeasible(Exception):
    pass


class PathLimit(Exception):
    pass


class Enough(PathLimit):
    """the harness has failed already; further paths would only repeat it"""


CTX = None          # active symbolic context, or None


def set_ctx(c):
    global CTX
    CTX = c


NUM = (int, float, Fraction, np.floating, np.integer, np.bool_)


def is_sym(x):
    return isinstance(x, (R, Z))


# irrational constants that the bytecode compiler folds: x = b ** (1/2**n)
ROOTS = {float(b)**(0.5**n): (b, n) for b in (2, 3, 5, 6) for n in (1, 2)}


def tt(x):
    """python/sym real -> term"""
    if isinstance(x, R):
        return x.t
    if isinstance(x, NUM):
        if isinstance(x, float) and x in ROOTS:
            t = const(ROOTS[x][0])
            for _ in range(ROOTS[x][1]):
                t = fn('sqrt', t)
            return t
        return const(x if isinstance(x, (int, Fraction)) else (int(x) if isinstance(x, (np.integer, np.bool_)) else float(x)))
    if isinstance(x, Z):
        if x.im is ZERO:
            return x.re
    if isinstance(x, complex) and x.imag == 0:
        return const(x.real)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return tt(x.item())
    raise Unsupported('not a real scalar: %r' % (type(x),))


def zz(x):
    """-> (re, im) terms"""
    if isinstance(x, Z):
        return x.re, x.im
    if isinstance(x, (complex, np.complexfloating)):
        return const(x.real), const(x.imag)
    return tt(x), ZERO


def assume_def(f):
    if CTX is not None:
        CTX.definedness(f)


def tdiv(a, b):
    if b.op != 'c':
        assume_def(fnot(cmp0('==', b)))
    return tm.div(a, b)


def tsqrt(a):
    if a.op == 'c' and a.args[0] < 0:
        raise ValueError('math domain error')
    if a.op not in ('c', 'pi'):
        assume_def(cmp0('<=', tm.neg(a)))
    return fn('sqrt', a)


def tlog(a):
    if a.op == 'c' and a.args[0] <= 0:
        raise ValueError('math domain error')
    if a.op not in ('c', 'pi'):
        assume_def(cmp0('<', tm.neg(a)))
    return fn('log', a)


def texp(a):
    return fn('exp', a)


def tsin(a):
    if a.op in ('asin', 'acos', 'atan'):
        from .models import invtrig
        return invtrig('sin', a, None)
    if a.op == 'atan2':
        y, x = a.args
        return tm.div(y, fn('sqrt', tm.add(tm.pow_(x, 2), tm.pow_(y, 2))))
    if a.op == '*' and a.args[0] is NEG1:
        return tm.neg(tsin(a.args[1]))
    return _trigpi('sin', a)


def tcos(a):
    if a.op in ('asin', 'acos', 'atan'):
        from .models import invtrig
        return invtrig('cos', a, None)
    if a.op == 'atan2':
        y, x = a.args
        return tm.div(x, fn('sqrt', tm.add(tm.pow_(x, 2), tm.pow_(y, 2))))
    if a.op == '*' and a.args[0] is NEG1:
        return tcos(a.args[1])
    return _trigpi('cos', a)


def _trigpi(f, a):
    k = None
    if a is PI:
        k = Fraction(1)
    elif a.op == '*' and a.args[0].op == 'c' and a.args[1] is PI:
        k = a.args[0].args[0]
    if k is not None and (2 * k).denominator == 1:
        n = int(2 * k) % 4
        return const([0, 1, 0, -1][n] if f == 'sin' else [1, 0, -1, 0][n])
    return fn(f, a)


def tpow(a, n):
    """a ** n, both terms"""
    if n.op == 'c':
        q = n.args[0]
        if q.denominator != 1:
            if a.op != 'c':
                assume_def(cmp0('<' if q < 0 else '<=', tm.neg(a)))
            elif a.args[0] < 0:
                raise Unsupported('fractional power of a negative constant')
        elif q < 0 and a.op != 'c':
            assume_def(fnot(cmp0('==', a)))
        return tm.pow_(a, q)
    if a.op == 'c' and a.args[0] == 1:
        return ONE
    return texp(tm.mul(n, tlog(a)))


class B:
    """symbolic truth value"""
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        if self.f.op == 'T':
            return True
        if self.f.op == 'F':
            return False
        if CTX is None:
            raise Unsupported('truth value outside a symbolic run')
        return CTX.decide(self.f)

    def __and__(self, o):
        return mkb(f_and(self.f, ff(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkb(f_or(self.f, ff(o)))
    __ror__ = __or__

    def __invert__(self):
        return mkb(fnot(self.f))

    def all(self, *a, **k):
        return self

    def any(self, *a, **k):
        return self

    def __repr__(self):
        return 'B%r' % (self.f,)

    # arithmetic use of truth values (np.sum of booleans, True*x)
    def __mul__(self, o):
        return (1 if bool(self) else 0) * o
    __rmul__ = __mul__

    def __add__(self, o):
        return (1 if bool(self) else 0) + o
    __radd__ = __add__

    def __int__(self):
        return 1 if bool(self) else 0
    __index__ = __int__

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return hash(bool(self))


def mkb(f):
    if f.op == 'T':
        return True
    if f.op == 'F':
        return False
    return B(f)


def ff(x):
    if isinstance(x, F):
        return x
    if isinstance(x, B):
        return x.f
    if isinstance(x, (bool, np.bool_)):
        return TRUE if x else FALSE
    if isinstance(x, (R, Z)):
        return fnot(eqf(x, 0))
    raise Unsupported('not a truth value: %r' % (x,))


def eqf(a, b):
    (ar, ai), (br, bi) = zz(a), zz(b)
    return f_and(cmp0('==', tm.sub(ar, br)), cmp0('==', tm.sub(ai, bi)))


class Base:
    __slots__ = ()
    __array_priority__ = 1000

    def __pos__(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    def __hash__(self):
        return 7919

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')

    def item(self):
        return self


def _cmp(op, swap=False):
    def f(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, Z) or isinstance(o, complex):
            raise TypeError('complex numbers are not ordered')
        if isinstance(o, float) and o in (math.inf, -math.inf):
            # finite symbolic reals
            less = (o == math.inf)
            return less if not swap else not less
        try:
            b = tt(o)
        except Unsupported:
            return NotImplemented
        a = self.t
        if swap:
            a, b = b, a
        return mkb(cmp0(op, tm.sub(a, b)))
    return f


class R(Base):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'R<%s>' % show(self.t, 4)

    def __format__(self, spec):
        if self.t.op == 'c':
            return format(float(self.t.args[0]), spec)
        return '<sym>'

    def _bin(self, o, f):
        if isinstance(o, (np.ndarray,)):
            return NotImplemented
        if isinstance(o, Z):
            return NotImplemented
        if isinstance(o, (complex, np.complexfloating)):
            return f(Z(self.t, ZERO), Z(*zz(o)))
        try:
            return f(self, R(tt(o)))
        except Unsupported:
            return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: R(tm.add(a.t, b.t)) if isinstance(a, R) else a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: R(tm.add(b.t, a.t)) if isinstance(a, R) else b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: R(tm.sub(a.t, b.t)) if isinstance(a, R) else a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: R(tm.sub(b.t, a.t)) if isinstance(a, R) else b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: R(tm.mul(a.t, b.t)) if isinstance(a, R) else a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: R(tm.mul(b.t, a.t)) if isinstance(a, R) else b * a)

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: R(tdiv(a.t, b.t)) if isinstance(a, R) else a / b)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: R(tdiv(b.t, a.t)) if isinstance(a, R) else b / a)

    def __pow__(self, o, mod=None):
        return self._bin(o, lambda a, b: R(tpow(a.t, b.t)) if isinstance(a, R) else a ** b)

    def __rpow__(self, o):
        return self._bin(o, lambda a, b: R(tpow(b.t, a.t)) if isinstance(a, R) else b ** a)

    def __neg__(self):
        return R(tm.neg(self.t))

    def __abs__(self):
        return R(fn('abs', self.t))

    def __bool__(self):
        return bool(mkb(fnot(cmp0('==', self.t))))

    def __float__(self):
        if self.t.op == 'c':
            return float(self.t.args[0])
        if self.t is PI:
            return math.pi
        raise Unsupported('float() of a symbolic real reached native code')

    def __complex__(self):
        return complex(float(self))

    def __int__(self):
        if self.t.op == 'c':
            return int(self.t.args[0])
        raise Unsupported('int() of a symbolic real')

    def __index__(self):
        if self.t.op == 'c' and self.t.args[0].denominator == 1:
            return int(self.t.args[0])
        raise Unsupported('index from a symbolic real')

    __lt__ = _cmp('<')
    __le__ = _cmp('<=')
    __gt__ = _cmp('<', True)
    __ge__ = _cmp('<=', True)
    __hash__ = Base.__hash__

    def __eq__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return False
        if isinstance(o, float) and (o != o or o in (math.inf, -math.inf)):
            return False
        try:
            return mkb(eqf(self, o))
        except Unsupported:
            return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else ~r

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return R(ZERO)

    def conjugate(self):
        return self
    conj = conjugate

    def sqrt(self):
        return R(tsqrt(self.t))

    def exp(self):
        return R(texp(self.t))

    def log(self):
        return R(tlog(self.t))

    def sin(self):
        return R(tsin(self.t))

    def cos(self):
        return R(tcos(self.t))

    def is_integer(self):
        if self.t.op == 'c':
            return self.t.args[0].denominator == 1
        raise Unsupported('is_integer')


class Z(Base):
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __repr__(self):
        return 'Z<%s, %s>' % (show(self.re, 3), show(self.im, 3))

    def _o(self, o):
        if isinstance(o, np.ndarray):
            return None
        try:
            return zz(o)
        except Unsupported:
            return None

    def __add__(self, o):
        b = self._o(o)
        if b is None:
            return NotImplemented
        return Z(tm.add(self.re, b[0]), tm.add(self.im, b[1]))
    __radd__ = __add__

    def __sub__(self, o):
        b = self._o(o)
        if b is None:
            return NotImplemented
        return Z(tm.sub(self.re, b[0]), tm.sub(self.im, b[1]))

    def __rsub__(self, o):
        b = self._o(o)
        if b is None:
            return NotImplemented
        return Z(tm.sub(b[0], self.re), tm.sub(b[1], self.im))

    def __mul__(self, o):
        b = self._o(o)
        if b is None:
            return NotImplemented
        return Z(*zmul((self.re, self.im), b))
    __rmul__ = __mul__

    def __truediv__(self, o):
        b = self._o(o)
        if b is None:
            return NotImplemented
        return Z(*zdiv((self.re, self.im), b))

    def __rtruediv__(self, o):
        b = self._o(o)
        if b is None:
            return NotImplemented
        return Z(*zdiv(b, (self.re, self.im)))

    def __pow__(self, o, mod=None):
        t = tt(o)
        if t.op == 'c' and t.args[0].denominator == 1:
            n = int(t.args[0])
            if n == 0:
                return Z(ONE, ZERO)
            r = (self.re, self.im)
            out = None
            b, k = r, abs(n)
            while k:
                if k & 1:
                    out = b if out is None else zmul(out, b)
                k >>= 1
                if k:
                    b = zmul(b, b)
            return Z(*out) if n > 0 else Z(*zdiv((ONE, ZERO), out))
        if self.im is ZERO:
            return Z(tpow(self.re, t), ZERO)
        if t.op == 'c' and t.args[0] == Fraction(1, 2):
            return zsqrt(self)
        raise Unsupported('non-integer power of a complex value')

    def __rpow__(self, o):
        raise Unsupported('complex exponent')

    def __neg__(self):
        return Z(tm.neg(self.re), tm.neg(self.im))

    def __abs__(self):
        if self.im is ZERO:
            return R(fn('abs', self.re))
        if self.re is ZERO:
            return R(fn('abs', self.im))
        return R(fn('sqrt', tm.add(tm.pow_(self.re, 2), tm.pow_(self.im, 2))))

    def __bool__(self):
        return bool(mkb(fnot(eqf(self, 0))))

    def __eq__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if o is None or isinstance(o, str):
            return False
        try:
            return mkb(eqf(self, o))
        except Unsupported:
            return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else ~r
    __hash__ = Base.__hash__

    def _ord(self, o):
        raise TypeError("'<' not supported between complex values")
    __lt__ = __le__ = __gt__ = __ge__ = _ord

    def __float__(self):
        raise TypeError("can't convert complex to float")

    def __complex__(self):
        if self.re.op == 'c' and self.im.op == 'c':
            return complex(float(self.re.args[0]), float(self.im.args[0]))
        raise Unsupported('complex() of a symbolic value reached native code')

    @property
    def real(self):
        return R(self.re)

    @property
    def imag(self):
        return R(self.im)

    def conjugate(self):
        return Z(self.re, tm.neg(self.im))
    conj = conjugate

    def sqrt(self):
        return zsqrt(self)

    def exp(self):
        return zexp(self)

    def log(self):
        return zlog(self)


numbers.Real.register(R)
numbers.Complex.register(Z)


def zmul(a, b):
    ar, ai = a
    br, bi = b
    return (tm.sub(tm.mul(ar, br), tm.mul(ai, bi)), tm.add(tm.mul(ar, bi), tm.mul(ai, br)))


def zdiv(a, b):
    br, bi = b
    if bi is ZERO:
        return tdiv(a[0], br), tdiv(a[1], br)
    if br is ZERO:
        return tdiv(a[1], bi), tm.neg(tdiv(a[0], bi))
    d = tm.add(tm.pow_(br, 2), tm.pow_(bi, 2))
    n = zmul(a, (br, tm.neg(bi)))
    return tdiv(n[0], d), tdiv(n[1], d)


def zexp(z):
    re, im = zz(z)
    e = texp(re)
    return Z(tm.mul(e, tcos(im)), tm.mul(e, tsin(im)))


def tatan2(y, x):
    if y.op == 'c' and x.op == 'c':
        v = math.atan2(float(y.args[0]), float(x.args[0]))
        if v == 0:
            return ZERO
        if v == math.pi:
            return PI
    return fn('atan2', y, x)


def zlog(z):
    re, im = zz(z)
    if im is ZERO and CTX is not None:
        if CTX.decide(cmp0('<', tm.neg(re))):
            return Z(tlog(re), ZERO)
        return Z(tlog(tm.neg(re)), PI)
    return Z(tlog(abs(Z(re, im)).t), tatan2(im, re))


def zsqrt(z):
    re, im = zz(z)
    if im is ZERO:
        if re.op == 'c':
            if re.args[0] >= 0:
                return Z(fn('sqrt', re), ZERO)
            return Z(ZERO, fn('sqrt', tm.neg(re)))
        if CTX is not None:
            if CTX.decide(cmp0('<=', tm.neg(re))):
                return Z(fn('sqrt', re), ZERO)
            return Z(ZERO, fn('sqrt', tm.neg(re)))
    return Z(mk('csre', re, im), mk('csim', re, im))


# numpy arrays on the other side of an operator: elementwise
def _wrap(cls, name, opf, cmp=False):
    orig = getattr(cls, name)
    sg = {'__add__': 1, '__radd__': 1, '__rsub__': 1, '__sub__': -1}.get(name)

    def m(self, o, *r):
        if isinstance(o, np.ndarray):
            out = np.empty(o.shape, dtype=object)
            for i in np.ndindex(o.shape):
                e = o[i]
                out[i] = opf(self, e.item() if isinstance(e, np.generic) else e)
            if cmp and out.shape:
                out = np.array([bool(x) for x in out.flat], dtype=bool).reshape(out.shape)
            return out if out.shape else out[()]
        if sg is not None and isinstance(o, float) and o in (math.inf, -math.inf):
            return sg * float(o)
        return orig(self, o, *r)
    setattr(cls, name, m)


import operator as _op
for _c in (R, Z):
    for _n, _f in (('add', _op.add), ('sub', _op.sub), ('mul', _op.mul), ('truediv', _op.truediv), ('pow', _op.pow)):
        _wrap(_c, '__%s__' % _n, _f)
        if hasattr(_c, '__r%s__' % _n):
            _wrap(_c, '__r%s__' % _n, lambda a, b, _f=_f: _f(b, a))
for _n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    _wrap(R, '__%s__' % _n, getattr(_op, _n), True)
R.__hash__ = Base.__hash__


# ------------------------------------------------------------------ context
class Obligation:
    __slots__ = ('name', 'path', 'goal', 'result', 'kind', 'fn', 'choices')

    def __init__(self, name, path, goal, result, kind):
        self.name, self.path, self.goal, self.result, self.kind = name, path, goal, result, kind


class Ctx:
    """One symbolic verification run of a harness (all paths)."""
    mode = 'sym'

    def __init__(self, seed=1, max_paths=300, z3_ms=6000, total=False, time_limit=None):
        self.domains = {}
        self.ufdom = {}
        self.sampler = Sampler(self.domains, seed, self.ufdom)
        self.obligations = []
        self.max_paths = max_paths
        self.z3_ms = z3_ms
        self.doubt, self.doubtful = set(), []
        self.npaths = 0
        self.ninfeasible = 0
        self.total = total
        self.proved_cache = {}
        self.assumed = set()
        self.definedness_assumed = 0
        self.deadline = time.time() + time_limit if time_limit else None
        self.started = time.time()
        self.nfailed = 0
        self.tolerated = ()
        self.witness = []
        self.seed = seed
        self.stop_on_fail = False

    # ---- per path
    def start(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.doubtful = []
        self.pc = []
        self.pckeys = set()
        self.n = 0
        self._facts = None
        self.alts = []
        self.nonzeros = []

    def assume(self, f):
        if f.op == 'T':
            return
        if f.op == 'F':
            raise Infeasible()
        k = f.key()
        if k in self.pckeys:
            return
        self.pckeys.add(k)
        self.pc.append(f)
        self._facts = None

    def facts(self):
        if self._facts is None:
            self._facts = Facts(self.pc)
        return self._facts

    def definedness(self, f):
        if f.op == 'T':
            return
        if f.key() in self.pckeys:
            return
        if self.total:
            self.check('defined', f, kind='definedness')
        else:
            self.definedness_assumed += 1
        self.assume(f)

    def quick(self, f):
        """cheap truth value of f under pc, or None"""
        if f.op in ('T', 'F'):
            return f.op == 'T'
        k = f.key()
        if k in self.pckeys:
            return True
        if fnot(f).key() in self.pckeys:
            return False
        if f.op in ('<', '<='):
            s = self.facts().sign(tm.neg(f.args[0]))
            if f.op == '<':
                if s == '+':
                    return True
                if s in ('-', '0-', '0'):
                    return False
            else:
                if s in ('+', '0+', '0'):
                    return True
                if s == '-':
                    return False
            if f.args[0].size < 300:
                s = solve.ring_sign(self.facts(), tm.neg(f.args[0]))
                if s == '+' or f.op == '<=' and s in ('0+', '0'):
                    return True
                if s == '-' or f.op == '<' and s in ('0-', '0'):
                    return False
        elif f.op == '==':
            s = self.facts().sign(f.args[0])
            if s in ('+', '-'):
                return False
            if s == '0':
                return True
            if f.args[0].size < 2000 and solve.ring_zero(self.facts(), f.args[0]):
                return True
            if any(solve.ring_zero(self.facts(), tm.sub(f.args[0], g)) for g in reversed(self.nonzeros) if g.size + f.args[0].size < 60000):
                return False
        elif f.op == '~':
            r = self.quick(f.args[0])
            return None if r is None else not r
        elif f.op == '&':
            rs = [self.quick(a) for a in f.args]
            if all(r is True for r in rs):
                return True
            if any(r is False for r in rs):
                return False
        elif f.op == '|':
            rs = [self.quick(a) for a in f.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
        return None

    def feasible(self, f, ms=2000):
        """False only if pc & f is certainly unsatisfiable"""
        pts = self.sampler.points(self.pc + [f], set(), 1, tries=60)
        if pts:
            return True
        ts = fterms(f)
        if sum(x.size for x in ts) > 20000:
            return True
        r, m, s = z3_check(solve.relevant(self.pc, ts) + [f], ms)
        if r == 'unknown':
            self.doubt.add(f.key())
        return r != 'unsat'

    def refuted_path(self, ms=20000):
        """the path was entered although no point of it is known: ask again with more time"""
        for i, f in enumerate(self.doubtful):
            if z3_check(solve.relevant([g for g in self.pc if g.key() != f.key()], fterms(f)) + [f], ms)[0] == 'unsat':
                return True
        return False

    def decide(self, f):
        if self.deadline and time.time() > self.deadline:
            raise PathLimit('time limit')
        q = self.quick(f)
        if q is not None:
            return q
        i = self.n
        self.n += 1
        if i < len(self.prefix):
            val = self.prefix[i]
        else:
            ft = self.feasible(f)
            fe = self.feasible(fnot(f), 2000 if ft else 300)     # if f is impossible its negation is only asked for a contradictory path
            if ft and fe:
                val = True
                self.alts.append(self.trace + [False])
            elif ft:
                val = True
            elif fe:
                val = False
            else:
                raise Infeasible()
        self.trace.append(val)
        g = f if val else fnot(f)
        if g.key() in self.doubt:
            self.doubtful.append(g)
        self.assume(g)
        return val

    def check(self, name, f, kind='post'):
        """obligation: pc |= f"""
        if kind == 'post' and getattr(self, 'choices', None):
            self.covered.update(self.choices.items())
        key = (name, f.key(), frozenset(self.pckeys))
        if key in self.proved_cache:
            return self.proved_cache[key]
        if self.deadline and time.time() > self.deadline:
            raise PathLimit('time limit')
        if f.op == 'F':
            # failing outright on this path: is the path reachable?
            pts = self.sampler.points(self.pc, set(), 1)
            if pts:
                r = Result('refuted', 'path', model={k: float(v) for k, v in pts[0][0].items()},
                           detail='condition false on a reachable path')
            else:
                r0, m, _ = z3_check(self.pc, self.z3_ms)
                if r0 == 'unsat':
                    r = Result('proved', 'z3')
                else:
                    r = Result('refuted', 'z3', model={k: float(v) for k, v in (m or {}).items()},
                               detail='condition false on this path (z3: %s)' % r0)
        else:
            q = self.quick(f) if kind != 'post' else None
            r = Result('proved', 'sign') if q is True else prove(self.pc, f, self.sampler, self.z3_ms)
            if r.status == 'unknown' and self.doubtful and self.refuted_path():
                raise Infeasible()
        o = Obligation(name, self.npaths, f, r, kind)
        o.choices = dict(getattr(self, 'choices', {}))
        self.obligations.append(o)
        self.proved_cache[key] = r
        if r.status != 'proved' and name not in self.tolerated:
            self.nfailed += 1
            if self.nfailed >= 12 and time.time() - self.started > 40:
                raise Enough('stopped after %d failed obligations' % self.nfailed)
        return r

    def run(self, harness):
        """explore all paths of harness(v)"""
        work = [[]]
        while work:
            prefix = work.pop()
            if self.npaths >= self.max_paths:
                raise PathLimit('more than %d paths' % self.max_paths)
            self.start(prefix)
            try:
                harness(self)
            except Infeasible:
                self.ninfeasible += 1
                work.extend(self.alts)
                continue
            work.extend(self.alts)
            self.npaths += 1
            if len(self.witness) < 3:
                p = self.sampler.points(self.pc, set(), 1)
                if p:
                    self.witness.append({k: float(v) for k, v in list(p[0][0].items())[:40]})
