"""Discharging obligations: structural sign rules, ring normal forms, z3, cvc5."""
import time
import random
import subprocess
import tempfile
import os
from fractions import Fraction
import z3
from .term import *
from . import term as _t
from .ring import Ring, TooBig, NoTerm
from .numeval import Env, Undefined
from mpmath import mpf

STATS = {'z3_time': 0.0, 'ring_time': 0.0, 'cvc5_time': 0.0, 'sign_time': 0.0, 'sample_time': 0.0,
         'z3_calls': 0, 'cvc5_calls': 0}


# ------------------------------------------------------------------ facts
class Facts:
    """Facts extracted from a path condition, for the cheap back ends."""

    def __init__(self, pc):
        self.pos = set()       # term ids known > 0
        self.nonneg = set()
        self.eqs = []
        self.pc = pc
        self._memo = {}
        for f in pc:
            self._add(f)

    def _add(self, f):
        if f.op == '&':
            for a in f.args:
                self._add(a)
            return
        if f.op == '==':
            self.eqs.append(f.args[0])
        if f.op in ('<', '<='):
            t = _t.neg(f.args[0])          # t >0 / >=0
            (self.pos if f.op == '<' else self.nonneg).add(t.id)
            # k*x > 0
            if t.op == '*' and t.args[0].op == 'c' and t.args[0].args[0] > 0:
                (self.pos if f.op == '<' else self.nonneg).add(t.args[1].id)
            elif t.op == '*' and t.args[0].op == 'c' and t.args[0].args[0] < 0:
                (self.pos if f.op == '<' else self.nonneg).add(_t.neg(t.args[1]).id)

    def sign(self, t):
        """'+' (>0), '0+' (>=0), '-' , '0-', or None"""
        m = self._memo
        if t.id in m:
            return m[t.id]
        # iterative
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in m:
                stack.pop()
                continue
            todo = [a for a in x.args if isinstance(a, T) and a.id not in m]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            m[x.id] = self._sign(x)
        return m[t.id]

    def _sign(self, t):
        if t.id in self.pos:
            return '+'
        n = _t.neg(t)
        if n.id in self.pos:
            return '-'
        s = self._sign0(t)
        if s in ('+', '-', '0'):
            return s
        if t.id in self.nonneg:
            return '0+'
        if n.id in self.nonneg:
            return '0-'
        return s

    def _sign0(self, t):
        op = t.op
        if op == 'c':
            v = t.args[0]
            return '+' if v > 0 else '-' if v < 0 else '0'
        if op == 'pi' or op in ('exp', 'Phi', 'cosh'):
            return '+'
        if op == 'uf':
            return '+' if t.args[0] in UFPOS else None
        m = self._memo
        if op == '+':
            a, b = m[t.args[0].id], m[t.args[1].id]
            for p, q in ((a, b), (b, a)):
                if p == '0':
                    return q
                if p == '+' and q in ('+', '0+'):
                    return '+'
                if p == '-' and q in ('-', '0-'):
                    return '-'
            if a == b == '0+':
                return '0+'
            if a == b == '0-':
                return '0-'
            return None
        if op in '*/':
            a, b = m[t.args[0].id], m[t.args[1].id]
            if a == '0' or (b == '0' and op == '*'):
                return '0'
            if a is None or b is None:
                if op == '*' and t.args[0] is t.args[1]:
                    return '0+'
                return None
            neg = (a in ('-', '0-')) != (b in ('-', '0-'))
            strict = a in '+-' and (b in '+-' or op == '/')
            return ('-' if neg else '+') if strict else ('0-' if neg else '0+')
        if op == '^':
            a, n = m[t.args[0].id], t.args[1]
            if n % 2 == 0:
                return '+' if a in ('+', '-') or n < 0 else '0+'
            return a
        if op == 'rpow':
            a = m[t.args[0].id]
            return '+' if a == '+' or t.args[1] < 0 else '0+'
        if op == 'sqrt':
            return '+' if m[t.args[0].id] == '+' else '0+'
        if op == 'csre':
            return '0+'
        if op == 'abs':
            return '+' if m[t.args[0].id] in ('+', '-') else '0+'
        if op in ('atan', 'sinh', 'tanh'):
            return m[t.args[0].id]
        if op == 'ichi2cdf':
            return '0+'
        if op == 'chi2cdf':
            return '+' if m[t.args[1].id] == '+' else '0+'
        if op == 'log':
            d = _t.sub(t.args[0], _t.ONE)
            n = _t.neg(d)
            return '+' if d.id in self.pos else '0+' if d.id in self.nonneg else '-' if n.id in self.pos else '0-' if n.id in self.nonneg else None
        return None


UFPOS = set()


def posvars(facts, ts):
    return [n for n, v in variables(ts).items() if v.id in facts.pos]


def ring_for(facts, ts, expand=True):
    r = Ring(posvars=posvars(facts, ts), expand=expand)
    allts = list(ts)
    # polynomials known positive from the path condition
    for f in facts.pc:
        for g in (f.args if f.op == '&' else [f]):
            if isinstance(g, F) and g.op == '<':
                x = _t.neg(g.args[0])
                if x.size > 60:
                    continue
                try:
                    p = r.nf(x)
                    if len(p) > 1:
                        c, m, q = r.primitive(p)
                        if len(q) > 1 and all(r.atoms[a].pos for a, _ in m):
                            if c < 0:
                                q = {k: -x for k, x in q.items()}
                            r.pospoly.add(r.pkey(q))
                except (ZeroDivisionError, TooBig):
                    pass
    return r


def ring_zero(facts, t):
    t0 = time.time()
    trig = has_op(t, ('sin', 'cos'))
    try:
        for ex in ((False, True) if trig else (True,)):
            try:
                r = ring_for(facts, [t], ex)
                if r.iszero(r.nf(t)):
                    return True
            except (ZeroDivisionError, TooBig, RecursionError):
                pass
        return None
    finally:
        STATS['ring_time'] += time.time() - t0


_hasop = {}


def has_op(t, ops):
    k = (t.id, ops)
    if k not in _hasop:
        seen = set()
        st = [t]
        r = False
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op in ops:
                r = True
                break
            st.extend(a for a in x.args if isinstance(a, T))
        _hasop[k] = r
    return _hasop[k]


def ring_sign(facts, t, out=None):
    """syntactic sign of the normal form: +1 if >=0; out: receives a simpler term with the same sign"""
    t0 = time.time()
    try:
        r = ring_for(facts, [t])
        p = r.nf(t)
        if not p:
            return '0'
        # clear poly denominators that are known positive
        for _ in range(20):
            low = {}
            for m in p:
                for a, e in m:
                    if r.atoms[a].kind == 'poly' and e < 0:
                        low[a] = min(low.get(a, 0), e)
            if not low:
                break
            a = max(low)
            if not r.atoms[a].pos:
                k = -low[a]
                if k != int(k) or int(k) % 2:
                    k = int(k) + 1
            else:
                k = -low[a]
                k = int(k) if k == int(k) else k
            q = {}
            for m, c in p.items():
                mm = r.mmul(m, ((a, k),))
                q[mm] = q.get(mm, 0) + c
            p = r.reduce({m: c for m, c in q.items() if c})
        if not p:
            return '0'
        if r.ispos(p):
            return '+'
        if r.isnonneg(p):
            return '0+'
        n = r.scale(p, -1)
        if r.ispos(n):
            return '-'
        if r.isnonneg(n):
            return '0-'
        if out is not None:
            try:
                c, m, q = r.primitive(p)
                if all(r.atoms[a].pos for a, _ in m):
                    q = r.scale(q, 1 if c > 0 else -1)
                else:
                    q = p
                t2 = r.term(q)
                if t2.size < 600:
                    out.append(t2)
            except NoTerm:
                pass
        if len(p) <= 60:
            for q, x in ((p, '+'), (n, '-')):
                if r.qsign(q, True):
                    return x
                if r.qsign(q, False):
                    return '0' + x
        return None
    except (ZeroDivisionError, TooBig, RecursionError):
        return None
    finally:
        STATS['ring_time'] += time.time() - t0


# ------------------------------------------------------------------ z3
# strictly increasing functions (in the last argument) and where
MONO = {'exp': None, 'Phi': None, 'atan': None, 'sinh': None, 'tanh': None, 'log': lambda q: q > 0,
        'iPhi': lambda q: z3.And(q > 0, q < 1), 'chi2cdf': lambda q: q >= 0, 'ichi2cdf': lambda q: z3.And(q >= 0, q < 1)}


INVERSE = {'Phi': 'iPhi', 'iPhi': 'Phi', 'chi2cdf': 'ichi2cdf', 'ichi2cdf': 'chi2cdf'}


class Z3Ctx:
    def __init__(self):
        self.cache = {}
        self.side = []
        self.n = 0
        self.uf = {}
        self.opq = {}
        self.mono = {}

    def fresh(self, p):
        self.n += 1
        return z3.Real('%s!%d' % (p, self.n))

    def tr(self, t):
        c = self.cache
        if t.id in c:
            return c[t.id]
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in c:
                stack.pop()
                continue
            todo = [a for a in x.args if isinstance(a, T) and a.id not in c]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            c[x.id] = self._one(x)
        return c[t.id]

    def _one(self, t):
        op = t.op
        c = self.cache
        if op == 'c':
            q = t.args[0]
            return z3.RealVal('%d/%d' % (q.numerator, q.denominator)) if q.denominator != 1 else z3.RealVal(q.numerator)
        if op == 'v':
            return z3.Real(t.args[0])
        if op == 'pi':
            p = z3.Real('pi!')
            if 'pi' not in self.uf:
                self.uf['pi'] = 1
                self.side += [p > z3.RealVal('3.14159265'), p < z3.RealVal('3.14159266')]
            return p
        a = [c[x.id] if isinstance(x, T) else x for x in t.args]
        if op == '+':
            return a[0] + a[1]
        if op == '*':
            return a[0] * a[1]
        if op == '/':
            q = self.fresh('q')
            self.side += [z3.Implies(a[1] != 0, q * a[1] == a[0])]
            if isinstance(t.args[1], T):
                pass
            return q
        if op == '^':
            n = a[1]
            if n > 0:
                r = a[0]
                for _ in range(n - 1):
                    r = r * a[0]
                return r
            q = self.fresh('p')
            r = a[0]
            for _ in range(-n - 1):
                r = r * a[0]
            self.side += [z3.Implies(a[0] != 0, q * r == 1)]
            return q
        if op == 'sqrt':
            s = self.fresh('s')
            self.side += [s >= 0, z3.Implies(a[0] >= 0, s * s == a[0])]
            return s
        if op == 'abs':
            return z3.If(a[0] >= 0, a[0], -a[0])
        if op in ('csre', 'csim'):
            key = ('cs', t.args[0].id, t.args[1].id)
            if key not in self.opq:
                x, y = self.fresh('cx'), self.fresh('cy')
                self.opq[key] = (x, y)
                self.side += [x * x - y * y == a[0], 2 * x * y == a[1], x >= 0]
            return self.opq[key][0 if op == 'csre' else 1]
        # opaque with congruence via UF
        key = op if op != 'uf' else 'uf_' + t.args[0]
        zargs = [x for x in a if not isinstance(x, (str, int, Fraction))]
        stat = [str(x) for x in a if isinstance(x, (str, int, Fraction))]
        key = key + '_' + '_'.join(stat)
        f = z3.Function(key, *([z3.RealSort()] * (len(zargs) + 1))) if zargs else None
        r = f(*zargs) if f is not None else z3.Real(key)
        x = self.fresh('o')
        self.side.append(x == r)
        if op in MONO:
            g = (op,) + tuple(y.id for y in t.args[:-1] if isinstance(y, T))
            prev = self.mono.setdefault(g, [])
            for y, w in prev[:10]:
                lt, gt = zargs[-1] < y, zargs[-1] > y
                ok = MONO[op]
                if ok:
                    cond = z3.And(*[ok(q) for q in (zargs[-1], y)])
                    self.side += [z3.Implies(z3.And(cond, lt), x < w), z3.Implies(z3.And(cond, gt), x > w)]
                else:
                    self.side += [z3.Implies(lt, x < w), z3.Implies(gt, x > w)]
            prev.append((zargs[-1], x))
            inv = INVERSE.get(op)
            if inv:         # quantile and distribution function: p < cdf(y) iff quantile(p) < y
                for y, w in self.mono.get((inv,) + g[1:], [])[:10]:
                    (p, q), (u, c) = ((zargs[-1], x), (y, w)) if op[0] == 'i' else ((y, w), (zargs[-1], x))
                    cond = z3.And(p > 0, p < 1, u > 0) if op.endswith('chi2cdf') else z3.And(p > 0, p < 1)
                    self.side += [z3.Implies(z3.And(cond, p > c), q > u), z3.Implies(z3.And(cond, p < c), q < u),
                                  z3.Implies(z3.And(cond, p == c), q == u)]
        if op in ('exp', 'cosh'):
            self.side.append(x > 0)
            if op == 'exp':
                self.side += [z3.Implies(zargs[0] >= 0, x >= 1 + zargs[0]), z3.Implies(zargs[0] <= 0, x <= 1), z3.Implies(zargs[0] < 0, x < 1)]
        elif op == 'rpow':
            self.side += [x >= 0, z3.Implies(zargs[0] > 0, x > 0)]
        elif op in ('sin', 'cos', 'tanh'):
            self.side += [x <= 1, x >= -1]
            if op in ('sin', 'cos'):
                s = z3.Function('sin_', z3.RealSort(), z3.RealSort())(*zargs)
                co = z3.Function('cos_', z3.RealSort(), z3.RealSort())(*zargs)
                self.side.append(s * s + co * co == 1)
        elif op == 'Phi':
            self.side += [x > 0, x < 1, z3.Implies(zargs[0] > 0, 2 * x > 1), z3.Implies(zargs[0] < 0, 2 * x < 1), z3.Implies(zargs[0] == 0, 2 * x == 1)]
        elif op == 'chi2cdf':
            self.side += [x >= 0, x < 1, z3.Implies(zargs[1] > 0, x > 0)]
        elif op == 'ichi2cdf':
            self.side += [z3.Implies(zargs[1] >= 0, x >= 0), z3.Implies(zargs[1] > 0, x > 0)]
        elif op == 'iPhi':
            self.side += [z3.Implies(z3.And(2 * zargs[0] > 1, zargs[0] < 1), x > 0), z3.Implies(2 * zargs[0] == 1, x == 0),
                          z3.Implies(z3.And(2 * zargs[0] < 1, zargs[0] > 0), x < 0)]
        elif op == 'log':
            self.side += [z3.Implies(zargs[0] > 0, x <= zargs[0] - 1),
                          z3.Implies(zargs[0] >= 1, x >= 0), z3.Implies(zargs[0] > 1, x > 0)]
        elif op == 'uf' and t.args[0] in UFPOS:
            self.side.append(x > 0)
        return x

    def fml(self, f):
        op = f.op
        if op == 'T':
            return z3.BoolVal(True)
        if op == 'F':
            return z3.BoolVal(False)
        if op == '&':
            return z3.And(*[self.fml(a) for a in f.args])
        if op == '|':
            return z3.Or(*[self.fml(a) for a in f.args])
        if op == '~':
            return z3.Not(self.fml(f.args[0]))
        if op == 'b':
            return z3.Bool('b!' + f.args[0])
        x = self.tr(f.args[0])
        return x == 0 if op == '==' else x <= 0 if op == '<=' else x < 0


def z3_check(fs, timeout_ms=3000):
    """sat/unsat/unknown of a conjunction, with a model dict when sat"""
    t0 = time.time()
    STATS['z3_calls'] += 1
    try:
        c = Z3Ctx()
        zs = [c.fml(f) for f in fs]
        s = z3.Solver()
        s.set('timeout', int(timeout_ms))
        s.add(*zs)
        s.add(*c.side)
        r = s.check()
        model = None
        if r == z3.sat:
            m = s.model()
            model = {}
            for d in m.decls():
                n = d.name()
                if d.arity() == 0 and '!' not in n:
                    try:
                        v = m[d]
                        if z3.is_algebraic_value(v):
                            v = v.approx(20)
                        model[n] = Fraction(v.numerator_as_long(), v.denominator_as_long())
                    except Exception:
                        pass
        return str(r), model, s
    finally:
        STATS['z3_time'] += time.time() - t0


def cvc5_check(solver, timeout_ms=5000):
    t0 = time.time()
    STATS['cvc5_calls'] += 1
    txt = '(set-logic ALL)\n' + solver.to_smt2().replace('(set-info :status unknown)', '')
    fd, p = tempfile.mkstemp(suffix='.smt2')
    try:
        os.write(fd, txt.encode())
        os.close(fd)
        out = subprocess.run(['cvc5', '--tlimit=%d' % timeout_ms, p], capture_output=True, text=True,
                             timeout=timeout_ms / 1000 + 5)
        return out.stdout.strip().split('\n')[0] if out.stdout.strip() else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(p)
        STATS['cvc5_time'] += time.time() - t0


def relevant(pc, ts, limit=60):
    """cone of influence: path facts sharing variables (transitively) with the goal"""
    vs = set(variables(ts))
    fv = [(f, set(variables(fterms(f)))) for f in pc]
    # directly relevant and transitive closure (bounded)
    chosen = []
    rest = fv
    for _ in range(2):
        new, keep = [], []
        for f, v in rest:
            (new if v & vs else keep).append((f, v))
        if not new:
            break
        chosen += [f for f, _ in new]
        for _, v in new:
            vs |= v
        rest = keep
    return chosen


class Result:
    def __init__(self, status, backend, model=None, detail='', time=0.0):
        self.status = status      # 'proved' | 'refuted' | 'unknown'
        self.backend = backend
        self.model = model
        self.detail = detail
        self.time = time


def prove(pc, goal, sampler=None, z3_ms=8000, nsample=12, tryring=True):
    """Decide pc |= goal."""
    t0 = time.time()

    def done(*a, **k):
        r = Result(*a, **k)
        r.time = time.time() - t0
        return r
    if goal.op == 'T':
        return done('proved', 'trivial')
    if goal.op == '&':
        bs = []
        for g in goal.args:
            r = prove(pc, g, sampler, z3_ms, nsample, tryring)
            if r.status != 'proved':
                return r
            bs.append(r.backend)
        return done('proved', '+'.join(sorted(set(bs))))
    # 1. numeric refutation
    model = None
    if sampler is not None:
        model = sampler.refute(pc, goal, nsample)
        if model is not None:
            return done('refuted', 'sampling', model=model, detail='goal false at sampled point')
    facts = Facts(pc)
    if goal.op in ('==', '<', '<='):
        t1 = simp_abs(facts, goal.args[0])
        if t1 is not goal.args[0]:
            goal = cmp0(goal.op, t1)
            if goal.op in ('T', 'F'):
                return done('proved', 'sign') if goal.op == 'T' else done('unknown', 'sign', detail='false after simplification')
    if goal.op == '==':
        t = goal.args[0]
        if tryring:
            z = ring_zero(facts, t)
            if z:
                return done('proved', 'ring')
            if facts.eqs:
                t2 = substitute_eqs(facts.eqs, t)
                if t2 is not t and ring_zero(facts, t2):
                    return done('proved', 'ring+subst')
    elif goal.op in ('<', '<='):
        t = _t.neg(goal.args[0])
        s = facts.sign(t)
        if s == '+' or (goal.op == '<=' and s in ('0+', '0')):
            return done('proved', 'sign')
        if tryring and t.size < 4000:
            simp = []
            s = ring_sign(facts, t, simp)
            if s == '+' or (goal.op == '<=' and s in ('0+', '0')):
                return done('proved', 'ring-sign')
            if simp and simp[0] is not t:
                g2 = cmp0(goal.op, _t.neg(simp[0]))
                rel = relevant(pc, [simp[0]])
                r, m, s_ = z3_check(rel + [fnot(g2)], min(z3_ms, 4000))
                if r == 'unsat':
                    return done('proved', 'ring+z3')
    elif goal.op == '|':
        # one disjunct that is an identity is enough
        for g in goal.args:
            if g.op == '==':
                r = prove(pc, g, None, 500)
                if r.status == 'proved':
                    return done('proved', r.backend)
    elif goal.op == 'F':
        pass
    # 3. generalise shared subterms, then SMT
    ts = fterms(goal)
    if goal.op in ('<', '<=') and sum(x.size for x in ts) > 25:
        for g2, pc2 in generalisations(facts, pc, goal):
            r, m, s_ = z3_check(pc2 + [fnot(g2)], min(z3_ms, 3000))
            if r == 'unsat':
                return done('proved', 'z3-generalised')
    if sum(x.size for x in ts) < 30000:
        rel = relevant(pc, ts) if ts else list(pc)
        r, m, s = z3_check(rel + [fnot(goal)], z3_ms)
        if r == 'unsat':
            return done('proved', 'z3')
        if r == 'unknown':
            r2 = cvc5_check(s, z3_ms)
            if r2 == 'unsat':
                return done('proved', 'cvc5')
        if r == 'sat':
            return done('refuted' if not ts else 'unknown', 'z3', model=m, detail='z3: sat (model may involve abstracted functions)')
        return done('unknown', 'z3', detail='z3/cvc5: unknown')
    return done('unknown', 'none', detail='goal too large for SMT, ring normal form nonzero')


def simp_abs(facts, t):
    """|x| -> +-x where the sign of x is known"""
    rep = {}
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'abs':
            s = facts.sign(x.args[0])
            if s in ('+', '0+', '0'):
                rep[x.id] = x.args[0]
            elif s in ('-', '0-'):
                rep[x.id] = _t.neg(x.args[0])
        st.extend(a for a in x.args if isinstance(a, T))
    return replace_ids(t, rep) if rep else t


def _parents(root):
    par = {}
    seen = set()
    stack = [root]
    order = []
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        order.append(x)
        for a in x.args:
            if isinstance(a, T):
                par.setdefault(a.id, []).append(x)
                stack.append(a)
    return par, order


def generalisations(facts, pc, goal, levels=3):
    """sound weakenings: replace shared compound subterms by fresh variables (keeping known signs)"""
    t = goal.args[0]
    for lev in range(levels):
        par, order = _parents(t)
        # shared = compound subterm with at least two distinct parents, outermost ones only
        shared = [x for x in order if x.op not in ('c', 'v', 'pi') and len(par.get(x.id, ())) >= 2 and x is not t]
        if not shared:
            return
        top = []
        cov = set()
        for x in sorted(shared, key=lambda y: -y.size):
            if x.id in cov:
                continue
            top.append(x)
            st = [x]
            while st:
                y = st.pop()
                if y.id in cov:
                    continue
                cov.add(y.id)
                st.extend(a for a in y.args if isinstance(a, T))
        rep = {}
        side = []
        for i, x in enumerate(top):
            nv = var('gen!%d!%d' % (lev, x.id))
            rep[x.id] = nv
            s = facts.sign(x)
            if s == '+':
                side.append(cmp0('<', _t.neg(nv)))
            elif s == '0+':
                side.append(cmp0('<=', _t.neg(nv)))
            elif s == '-':
                side.append(cmp0('<', nv))
            elif s == '0-':
                side.append(cmp0('<=', nv))
        g = replace_ids(t, rep)
        left = variables([g])
        keep = [f for f in pc if set(variables(fterms(f))) and set(variables(fterms(f))) <= set(left)]
        yield cmp0(goal.op, g), side + keep
        # next level: open the outermost shared terms
        nxt = top
        inner = [x for x in shared if x not in top]
        if not inner:
            return
        rep2 = {}
        # open one level by generalising only inner shared terms
        t2 = t
        cov = set()
        top2 = []
        for x in sorted(inner, key=lambda y: -y.size):
            if x.id in cov:
                continue
            top2.append(x)
            st = [x]
            while st:
                y = st.pop()
                if y.id in cov:
                    continue
                cov.add(y.id)
                st.extend(a for a in y.args if isinstance(a, T))
        side = []
        for x in top2:
            nv = var('gen!%d!%d' % (lev, x.id))
            rep2[x.id] = nv
            s = facts.sign(x)
            if s in ('+', '0+'):
                side.append(cmp0('<' if s == '+' else '<=', _t.neg(nv)))
            elif s in ('-', '0-'):
                side.append(cmp0('<' if s == '-' else '<=', nv))
        yield cmp0(goal.op, replace_ids(t, rep2)), side
        return


def replace_ids(t, rep):
    cache = dict(rep)
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in cache:
            stack.pop()
            continue
        todo = [a for a in x.args if isinstance(a, T) and a.id not in cache]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        a = [cache[y.id] if isinstance(y, T) else y for y in x.args]
        cache[x.id] = x if all(p is q for p, q in zip(a, x.args)) else rebuild(x.op, a)
    return cache[t.id]


def substitute_eqs(eqs, t):
    """use equalities v - e == 0 / v == 0 to eliminate variables (oriented, acyclic)"""
    sub = {}
    for e in eqs:
        v, rhs = orient(e, sub)
        if v is None:
            continue
        sub[v] = rhs
    if not sub:
        return t
    for _ in range(5):
        n = subst(t, sub)
        if n is t:
            break
        t = n
    return t


def orient(e, sub):
    cand = []
    def lin(t, c):
        if t.op == '+':
            return lin(t.args[0], c) + lin(t.args[1], c)
        if t.op == '*' and t.args[0].op == 'c':
            return lin(t.args[1], c * t.args[0].args[0])
        return [(t, c)]
    parts = lin(e, Fraction(1))
    for i, (t, c) in enumerate(parts):
        if t.op == 'v' and t.args[0] not in sub:
            others = parts[:i] + parts[i + 1:]
            if all(t.args[0] not in variables([o]) for o, _ in others):
                rhs = ZERO
                for o, k in others:
                    rhs = add(rhs, mul(const(-k / c), o))
                # avoid cycles
                if not any(v in sub for v in variables([rhs])):
                    return t.args[0], rhs
    return None, None


def subst(t, m):
    cache = {}
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in cache:
            stack.pop()
            continue
        if x.op == 'v':
            cache[x.id] = m.get(x.args[0], x)
            stack.pop()
            continue
        todo = [a for a in x.args if isinstance(a, T) and a.id not in cache]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        a = [cache[y.id] if isinstance(y, T) else y for y in x.args]
        if all(p is q for p, q in zip(a, x.args)):
            cache[x.id] = x
        else:
            cache[x.id] = rebuild(x.op, a)
    return cache[t.id]


def rebuild(op, a):
    if op == '+':
        return add(*a)
    if op == '*':
        return mul(*a)
    if op == '/':
        return div(*a)
    if op in ('^', 'rpow'):
        return pow_(*a)
    if op in ('c', 'v', 'pi', 'uf'):
        return mk(op, *a)
    return fn(op, *a)


class Draw(dict):
    """values of variables, drawn when first read"""

    def __init__(self, sampler, sub):
        super().__init__()
        self.sampler, self.sub = sampler, sub

    def __missing__(self, n):
        if n in self.sub:
            raise KeyError(n)
        x = self[n] = self.sampler.draw(n)
        return x


class Sampler:
    """draws points satisfying the path condition"""

    def __init__(self, domains, seed=1, ufdom=None):
        self.domains = domains      # name -> callable(rng) -> float
        self.rng = random.Random(seed)
        self.ufdom = ufdom or {}
        self.pts = {}
        self.fails = {}

    def draw(self, n):
        d = self.domains.get(n)
        return mpf(float(d(self.rng) if d else self.rng.uniform(-2, 2)))

    def points(self, pc, names, n, tries=400):
        key = tuple(f.key() for f in pc)
        hit = self.pts.get(key)
        got = []
        if hit is not None and hit[1] >= set(names):
            return hit[0][:n] if len(hit[0]) >= n or hit[2] else hit[0]
        need = set(names) | set(variables([t for f in pc for t in fterms(f)]))
        eqs = [g.args[0] for f in pc for g in (f.args if f.op == '&' else [f]) if isinstance(g, F) and g.op == '==']
        sub = {}
        for e in eqs:
            v, rhs = orient(e, sub)
            if v is not None:
                sub[v] = rhs
        names = sorted(need - set(sub))
        order = sorted(pc, key=lambda f: -self.fails.get(f.key(), 0))       # conditions that failed before come first
        for i in range(tries):
            vals = Draw(self, sub)
            env = Env(vals, seed=i, ufdom=self.ufdom)
            try:
                for _ in range(len(sub) + 1):
                    for v, rhs in sub.items():
                        if v not in vals and all(x in vals or x not in sub for x in variables([rhs])):
                            vals[v] = env.ev(rhs)
                bad = next((f for f in order if not env.holds(f)), None)
                if bad is not None:
                    self.fails[bad.key()] = self.fails.get(bad.key(), 0) + 1
                    if order[0] is not bad:
                        order = [bad] + [f for f in order if f is not bad]
                    continue
                for x in names:
                    vals[x]
                got.append((vals, i))
                if len(got) >= n:
                    break
            except Undefined:
                continue
        self.pts[key] = (got, need, len(got) < n)
        return got

    def refute(self, pc, goal, n):
        t0 = time.time()
        try:
            names = set(variables(fterms(goal)))
            for vals, i in self.points(pc, names, n):
                env = Env(vals, seed=i, ufdom=self.ufdom)
                try:
                    if not env.holds(goal):
                        return {k: float(v) for k, v in vals.items()}
                except Undefined:
                    continue
            return None
        finally:
            STATS['sample_time'] += time.time() - t0
