"""Normal forms for terms: Laurent polynomials with rational exponents over atoms.

Back end 'ring': decides identities between terms built from + * / powers, sqrt, exp, log,
sin, cos, abs and opaque functions.  Every rewriting used is an exact identity over the
reals wherever both sides are defined:
  x^a x^b = x^(a+b) (fractional a only for atoms known positive),  sqrt(A)^2 = A,
  cos^2 = 1 - sin^2,  |A|^2 = A^2,  exp(a+b) = exp a exp b,
  log(ab) = log a + log b and sqrt(ab) = sqrt a sqrt b for factors known positive.
"""
from fractions import Fraction
from math import gcd, isqrt
from .term import T

LIMIT = 400000


class TooBig(Exception):
    pass


class NoTerm(Exception):
    pass


class Atom:
    __slots__ = ('key', 'kind', 'data', 'id', 'pos', 'nonneg', 't')

    def __repr__(self):
        return str(self.key)


class Ring:
    """One Ring per obligation: `positive(term-level oracle)` tells which atoms are > 0."""

    def __init__(self, posvars=(), pospolys=(), expand=True):
        self.expand = expand
        self.atoms = []
        self.index = {}
        self.posvars = set(posvars)
        self.cache = {}
        self.pospoly = set()
        self.nfcount = 0
        self.stamp = 0
        self.depends_on_pos = False
        self.budget = LIMIT

    # ----- atoms
    def atom(self, key, kind, data=None, pos=False, nonneg=False):
        a = self.index.get(key)
        if a is None:
            a = Atom()
            a.key, a.kind, a.data, a.id = key, kind, data, len(self.atoms)
            a.t = None
            a.pos = pos
            a.nonneg = nonneg or pos
            self.atoms.append(a)
            self.index[key] = a
        return a.id

    # ----- polynomial arithmetic: dict {mono: coeff}, mono = tuple of (atom, exp)
    def one(self, c=1):
        return {(): c} if c else {}

    def padd(self, p, q, s=1):
        if len(p) < len(q) and s == 1:
            p, q = q, p
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + s * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def mmul(self, a, b):
        if not a:
            return b
        if not b:
            return a
        i = j = 0
        out = []
        la, lb = len(a), len(b)
        while i < la and j < lb:
            x, y = a[i], b[j]
            if x[0] == y[0]:
                e = x[1] + y[1]
                if e:
                    out.append((x[0], _n(e)))
                i += 1
                j += 1
            elif x[0] < y[0]:
                out.append(x)
                i += 1
            else:
                out.append(y)
                j += 1
        out.extend(a[i:])
        out.extend(b[j:])
        return tuple(out)

    def pmul(self, p, q):
        if not p or not q:
            return {}
        if len(p) * len(q) > 4 * LIMIT:
            raise TooBig()
        self.budget -= len(p) * len(q)
        if self.budget < -20 * LIMIT:
            raise TooBig()
        r = {}
        need = False
        for ma, ca in p.items():
            for mb, cb in q.items():
                m = self.mmul(ma, mb)
                r[m] = r.get(m, 0) + ca * cb
        r = {m: c for m, c in r.items() if c}
        return self.reduce(r)

    def ppow(self, p, n):
        if n == 0:
            return self.one()
        if n == 1:
            return p
        if len(p) == 1:
            return self.monopow(p, Fraction(n))
        r = None
        b = p
        while n:
            if n & 1:
                r = b if r is None else self.pmul(r, b)
            n >>= 1
            if n:
                b = self.pmul(b, b)
        return r

    def scale(self, p, c):
        if not c:
            return {}
        return {m: _n(v * c) for m, v in p.items()}

    # ----- reductions: atom powers with algebraic relations
    def reduce(self, p):
        """apply s^2->A, sin/cos, |A|^2, prime^1 -> number, poly^k -> expansion (k>=1)"""
        out = {}
        work = None
        for m, c in p.items():
            hit = None
            for (a, e) in m:
                k = self.atoms[a].kind
                if k == 'v' or k == 'exp':
                    continue
                if k == 'prime':
                    if e >= 1 or e < 0:
                        hit = (a, e)
                        break
                elif k in ('sqrt', 'abs'):
                    if e >= 2 or e <= -1:
                        hit = (a, e)
                        break
                elif k == 'cos':
                    if e >= 2:
                        hit = (a, e)
                        break
                elif k == 'poly':
                    if e >= 1:
                        hit = (a, e)
                        break
                elif k == 'csim':
                    if e >= 2 or any(x[0] == self.atoms[a].data[2] and x[1] >= 1 for x in m):
                        hit = (a, e)
                        break
                elif k == 'csre':
                    if e >= 3:
                        hit = (a, e)
                        break
            if hit is None:
                v = out.get(m, 0) + c
                if v:
                    out[m] = v
                else:
                    out.pop(m, None)
                continue
            if work is None:
                work = []
            work.append((m, c, hit))
        if work is None:
            return out
        for m, c, (a, e) in work:
            at = self.atoms[a]
            rest = tuple(x for x in m if x[0] != a)
            fl = e.numerator // e.denominator if isinstance(e, Fraction) else e
            if at.kind == 'prime':
                q = Fraction(at.data) ** fl
                fr = e - fl
                mm = self.mmul(rest, ((a, _n(fr)),)) if fr else rest
                rep = {mm: _n(c * q)}
                rep = self.reduce(rep)
            elif at.kind in ('sqrt', 'abs'):
                # s^e: s = s^2 * s^-1 : negative odd exponents rewritten with positive s
                # e integer here
                k, r = divmod(fl, 2)
                base = at.data if at.kind == 'sqrt' else self.pmul(at.data, at.data)
                mm = self.mmul(rest, ((a, 1),)) if r else rest
                rep = {mm: c}
                rep = self.reduce(rep)
                if k > 0:
                    rep = self.pmul(rep, self.ppow(base, k))
                elif k < 0:
                    rep = self.pmul(rep, self.ppow(self.inv(base), -k))
            elif at.kind == 'cos':
                k, r = divmod(fl, 2)
                mm = self.mmul(rest, ((a, 1),)) if r else rest
                s = at.data
                rep = self.pmul(self.reduce({mm: c}), self.ppow({(): 1, ((s, 2),): -1}, k))
            elif at.kind == 'csim':
                Re, Im, ra = at.data
                if e >= 2:      # y^2 = x^2 - Re
                    mm = self.mmul(rest, ((a, e - 2),)) if e > 2 else rest
                    rep = self.pmul({mm: c}, self.padd({((ra, 2),): 1}, Re, -1))
                else:           # x*y = Im/2
                    mm = self.mmul(rest, ((ra, -1),))
                    rep = self.pmul({mm: c}, self.scale(Im, Fraction(1, 2)))
            elif at.kind == 'csre':   # x^3 = Re x + y Im/2
                Re, Im, ia = at.data
                mm = self.mmul(rest, ((a, e - 3),)) if e > 3 else rest
                rep = self.pmul({mm: c}, self.padd(self.pmul(Re, {((a, 1),): 1}),
                                                   self.pmul(self.scale(Im, Fraction(1, 2)), {((ia, 1),): 1})))
            else:  # poly
                fr = e - fl
                mm = self.mmul(rest, ((a, _n(fr)),)) if fr else rest
                rep = self.pmul(self.reduce({mm: c}), self.ppow(at.data, fl))
            out = self.padd(out, rep)
        return out

    # ----- content/monomial factoring
    def primitive(self, p):
        """p = c * mono * q, q primitive with nonneg min exponents and positive leading coeff"""
        ms = list(p)
        # common monomial
        mins = dict(ms[0])
        for m in ms[1:]:
            d = dict(m)
            for a in list(mins):
                e = min(mins[a], d.get(a, 0))
                if e:
                    mins[a] = e
                else:
                    del mins[a]
            for a, e in d.items():
                if a not in mins and e < 0:
                    mins[a] = e
        # atoms absent in the first monomials but negative somewhere
        allm = {}
        for m in ms:
            for a, e in m:
                allm.setdefault(a, []).append(e)
        mins = {}
        for a, es in allm.items():
            lo = min(es)
            if len(es) < len(ms):
                lo = min(lo, 0)
            k = self.atoms[a].kind
            if lo and k in ('v', 'exp', 'uf', 'poly', 'log', 'sin', 'itrig', 'prime'):
                mins[a] = lo
        mono = tuple(sorted(mins.items()))
        imono = tuple((a, _n(-e)) for a, e in mono)
        q = {self.mmul(m, imono): c for m, c in p.items()} if mono else p
        # content
        num, den = 0, 1
        for c in q.values():
            c = Fraction(c)
            num = gcd(num, c.numerator)
            den = den * c.denominator // gcd(den, c.denominator)
        lead = max(q)
        content = Fraction(num, den)
        if q[lead] < 0:
            content = -content
        q = {m: _n(c / content) for m, c in q.items()}
        if self.pospoly and len(q) > 1:
            n = {m: -c for m, c in q.items()}
            if self.pkey(n) in self.pospoly:
                return -content, mono, n
        return content, mono, q

    def pkey(self, q):
        return ('poly', frozenset(q.items()))

    def polyatom(self, q):
        key = self.pkey(q)
        if key in self.index:
            return self.index[key].id
        return self.atom(key, 'poly', q, pos=self.ispos(q) or self.qsign(q, True))

    def inv(self, p):
        if not p:
            raise ZeroDivisionError('inverse of a term equal to zero')
        if len(p) == 1:
            (m, c), = p.items()
            return self.reduce({tuple((a, _n(-e)) for a, e in m): _n(1 / Fraction(c))})
        p = self.normneg(p)
        if len(p) == 1:
            return self.inv(p)
        c, m, q = self.primitive(p)
        im = tuple((a, _n(-e)) for a, e in m)
        if len(q) == 1:
            return self.pmul({im: _n(1 / c)}, self.inv(q))
        s = self.psqrt(q)
        if s is not None:
            r = self.inv(s)
            return self.pmul({im: _n(1 / c)}, self.pmul(r, r))
        at = self.polyatom(q)
        return self.reduce({self.mmul(im, ((at, -1),)): _n(1 / c)})

    def normneg(self, p):
        """clear negative powers of poly atoms when all terms can be put over one denominator
        and try exact cancellation (returns an equal polynomial)"""
        return p

    # ----- positivity oracle (syntactic)
    def ispos(self, q):
        """provably > 0: every term a positive coefficient times powers of positive atoms
        (or even powers, with at least one strictly positive term)."""
        if not q:
            return False
        if self.pkey(q) in self.pospoly:
            self.depends_on_pos = True
            return True
        strict = False
        for m, c in q.items():
            if c <= 0:
                return False
            s = True
            for a, e in m:
                at = self.atoms[a]
                if at.pos:
                    continue
                if isinstance(e, int) and e % 2 == 0 or at.nonneg:
                    s = s and e < 0
                    continue
                return False
            strict = strict or s
        return strict

    def qsign(self, p, strict, depth=4):
        """q = A x^2 + B x + C  with A, C >= 0 and 4AC - B^2 > 0 (>= 0)  ==>  q > 0 (>= 0)"""
        if self.ispos(p) if strict else self.isnonneg(p):
            return True
        if depth == 0 or not p or len(p) > 60:
            return False
        bad, exps = set(), {}
        for m, c in p.items():
            for a, e in m:
                exps.setdefault(a, set()).add(e)
                at = self.atoms[a]
                if (c < 0 or not (isinstance(e, int) and e % 2 == 0)) and not at.pos:
                    bad.add(a)
            if c < 0:
                bad.update(a for a, e in m)
        try:
            for a in sorted(bad):
                if not exps[a] <= {1, 2} or 2 not in exps[a] or self.atoms[a].kind == 'poly':
                    continue
                co = [{}, {}, {}]
                for m, c in p.items():
                    e = dict(m).get(a, 0)
                    co[e][tuple(x for x in m if x[0] != a)] = c
                C, B, A = co
                if not C or not self.qsign(A, False, depth - 1) or not self.qsign(C, False, depth - 1):
                    continue
                d = self.padd(self.scale(self.pmul(A, C), 4), self.pmul(B, B), -1)
                if not d:
                    if not strict:
                        return True
                    continue
                if self.qsign(d, strict, depth - 1):
                    return True
        except TooBig:
            pass
        return False

    def isnonneg(self, q):
        for m, c in q.items():
            if c < 0:
                return False
            for a, e in m:
                at = self.atoms[a]
                if at.pos or at.nonneg:
                    continue
                if isinstance(e, int) and e % 2 == 0:
                    continue
                return False
        return True

    # ----- powers of a single-term polynomial
    def numpow(self, c, r):
        """positive rational c to the rational r -> mono, coeff"""
        c = Fraction(c)
        m, k = (), Fraction(1)
        for n, s in ((c.numerator, 1), (c.denominator, -1)):
            for pr, e in factor(n).items():
                ee = e * r * s
                fl = ee.numerator // ee.denominator
                k *= Fraction(pr) ** fl
                fr = ee - fl
                if fr:
                    m = self.mmul(m, ((self.atom(('prime', pr), 'prime', pr, pos=True), _n(fr)),))
        return m, k

    def monopow(self, p, r):
        """(c*m)^r for integer r, or fractional r when everything is positive"""
        (m, c), = p.items()
        if r.denominator == 1:
            n = int(r)
            return self.reduce({tuple((a, _n(e * n)) for a, e in m): _n(Fraction(c) ** n)})
        pm, k = self.numpow(c, r)
        return self.reduce({self.mmul(pm, tuple((a, _n(e * r)) for a, e in m)): _n(k)})

    def psqrt(self, q):
        """s with s*s = q, for a polynomial q with several terms (None if there is none)"""
        if len(q) > 60:
            return None
        for _ in range(3):
            ex = {}
            for m, c in q.items():
                t = {tuple((a, e) for a, e in m if self.atoms[a].kind != 'poly'): c}
                for a, e in m:
                    if self.atoms[a].kind == 'poly':
                        if not isinstance(e, int) or e < 0 or len(self.atoms[a].data)*e > 40:
                            return None
                        t = self.pmul(t, self.ppow(self.atoms[a].data, e))
                ex = self.padd(ex, t)
            if ex == q:
                break
            q = ex
        if len(q) < 3 or len(q) > 400:
            return None
        c, mono, q1 = self.primitive(q)
        if mono:
            if c < 0 or any(not isinstance(e, int) or e % 2 for a, e in mono):
                return None
            s = self.psqrt(self.scale(q1, c))
            return None if s is None else self.pmul(s, {tuple((a, e//2) for a, e in mono): 1})
        vs = sorted({a for m in q for a, e in m})
        for m in q:
            for a, e in m:
                if not isinstance(e, int) or e < 0:
                    return None
        rank = {a: i for i, a in enumerate(vs)}

        def key(m):
            v = [0]*len(vs)
            for a, e in m:
                v[rank[a]] = e
            return (sum(v), v)
        # the leading and the trailing term must be squares
        for m in (max(q, key=key), min(q, key=key)):
            c = Fraction(q[m])
            if c <= 0 or isqrt(c.numerator)**2 != c.numerator or isqrt(c.denominator)**2 != c.denominator or any(e % 2 for a, e in m):
                return None
        lm = max(q, key=key)
        c = Fraction(q[lm])
        c0 = Fraction(isqrt(c.numerator), isqrt(c.denominator))
        m0 = tuple((a, e//2) for a, e in lm)
        s = {m0: _n(c0)}
        r = self.padd(q, self.pmul(s, s), -1)
        d0 = dict(m0)
        last = None
        for _ in range(40):
            if not r:
                return s
            m = max(r, key=key)
            k = key(m)
            if last is not None and k >= last:
                return None
            last = k
            d = dict(m)
            for a, e in d0.items():
                d[a] = d.get(a, 0) - e
                if d[a] < 0:
                    return None
            t = {tuple(sorted((a, e) for a, e in d.items() if e)): _n(Fraction(r[m])/(2*c0))}
            r = self.padd(self.padd(r, self.pmul(s, t), -2), self.pmul(t, t), -1)
            s = self.padd(s, t)
        return None

    def fracpow(self, p, r):
        """p^r, r non-integer; p assumed >= 0 (that is a definedness condition)"""
        if not p:
            return {}
        c, m, q = self.primitive(p)
        # split c*m*q into known-positive part and rest
        posm, rest = [], []
        for a, e in m:
            at = self.atoms[a]
            (posm if at.pos else rest).append((a, e))
        out = self.one()
        if r == Fraction(1, 2) and c > 0:
            s = self.psqrt(q)
            if s is not None:
                out, q = self.absp(s), {(): 1}
        qpos = len(q) > 1 and self.ispos(q)
        if len(q) == 1 and q.get(()) == 1:
            qone = True
        else:
            qone = False
        if c > 0:
            pm, k = self.numpow(c, r)
            out = self.pmul(out, self.reduce({pm: _n(k)}))
            cc = 1
        else:
            pm, k = self.numpow(-c, r)
            out = self.pmul(out, self.reduce({pm: _n(k)}))
            cc = -1
        if posm:
            out = self.pmul(out, {tuple((a, _n(e * r)) for a, e in posm): 1})
        if qpos:
            at = self.polyatom(q)
            out = self.pmul(out, {((at, _n(r)),): 1})
            core = {(): 1}
        else:
            core = q
        if not rest and cc == 1 and (qpos or qone):
            return out
        # even powers of the rest can be extracted as |.|^..., only for sqrt
        core = self.scale(core, cc)
        if rest:
            if r == Fraction(1, 2):
                ev = [(a, e) for a, e in rest if isinstance(e, int) and e % 2 == 0]
                od = [(a, e) for a, e in rest if not (isinstance(e, int) and e % 2 == 0)]
                # odd: a^e = a^(e-1) * a ; make remaining exponent 1
                for a, e in od:
                    if isinstance(e, int):
                        ev.append((a, e - 1))
                        core = self.pmul(core, {((a, 1),): 1})
                    else:
                        core = self.pmul(core, {((a, e),): 1})
                for a, e in ev:
                    if e:
                        ab = self.absp({((a, 1),): 1})
                        out = self.pmul(out, self.ppow(ab, e // 2) if e > 0 else
                                        self.ppow(self.inv(ab), -e // 2))
            else:
                core = self.pmul(core, {tuple(sorted(rest)): 1})
        if len(core) == 1 and core.get(()) == 1:
            return out
        if r == Fraction(1, 2):
            s = self.psqrt(core)
            if s is not None:
                return self.pmul(out, self.absp(s))
            at = self.atom(('sqrt', frozenset(core.items())), 'sqrt', core, nonneg=True)
            return self.pmul(out, {((at, 1),): 1})
        n = r.numerator // r.denominator
        fr = r - n
        at = self.atom(('rpow', frozenset(core.items()), fr), 'uf', None, nonneg=True)
        o = self.pmul(out, {((at, 1),): 1})
        if n > 0:
            o = self.pmul(o, self.ppow(core, n))
        elif n < 0:
            o = self.pmul(o, self.ppow(self.inv(core), -n))
        return o

    def absp(self, p):
        if not p:
            return {}
        if self.isnonneg(p):
            return p
        n = self.scale(p, -1)
        if self.isnonneg(n):
            return n
        c, m, q = self.primitive(p)
        out = {(): _n(abs(c))}
        for a, e in m:
            at = self.atoms[a]
            if at.pos or at.nonneg or (isinstance(e, int) and e % 2 == 0):
                out = self.pmul(out, {((a, e),): 1})
            else:
                core = {((a, 1),): 1}
                ab = self.atom(('abs', frozenset(core.items())), 'abs', core, nonneg=True)
                out = self.pmul(out, {((ab, e),): 1})
        if len(q) == 1 and q.get(()) == 1:
            return out
        if self.ispos(q):
            return self.pmul(out, q)
        ab = self.atom(('abs', frozenset(q.items())), 'abs', q, nonneg=True)
        return self.pmul(out, {((ab, 1),): 1})

    def logatom(self, a):
        la = self.atom(('log', a), 'log', a)
        at = self.atoms[a]
        if not self.atoms[la].pos and (at.kind == 'prime' or self.pospoly and self.pkey({((a, 1),): 1, (): -1}) in self.pospoly):
            self.atoms[la].pos = self.atoms[la].nonneg = True       # log x > 0 for x > 1
        return la

    # ----- back to terms (for the SMT back ends)
    def term(self, p, budget=400):
        from . import term as tm
        if len(p) > budget:
            raise NoTerm()
        out = tm.ZERO
        for m, c in sorted(p.items(), key=lambda x: len(x[0])):
            t = tm.const(Fraction(c))
            for a, e in m:
                b = self.aterm(a)
                e = Fraction(e)
                if e.denominator == 1:
                    t = tm.mul(t, tm.pow_(b, int(e)))
                elif e.denominator == 2:
                    t = tm.mul(t, tm.pow_(tm.fn('sqrt', b), int(2 * e)))
                else:
                    raise NoTerm()
            out = tm.add(out, t)
        return out

    def aterm(self, a):
        from . import term as tm
        at = self.atoms[a]
        k = at.kind
        if isinstance(at.t, T):
            return at.t
        if k == 'v':
            r = tm.PI if at.data == 'pi' and at.key == ('pi',) else tm.var(at.data)
        elif k == 'prime':
            r = tm.const(at.data)
        elif k == 'poly':
            r = self.term(at.data)
        elif k in ('exp', 'sqrt', 'abs'):
            r = tm.fn(k, self.term(at.data))
        elif k == 'log' and at.data is not None:
            r = tm.fn('log', self.aterm(at.data))
        elif isinstance(at.t, tuple) and len(at.t) == 2:
            r = tm.fn(at.t[0], self.term(at.t[1]))
        else:
            raise NoTerm()
        at.t = r
        return r

    def logp(self, p):
        if not p:
            raise ZeroDivisionError('log(0)')
        c, m, q = self.primitive(p)
        out = {}
        restm, restc = [], 1
        for a, e in m:
            at = self.atoms[a]
            if at.pos:
                if at.kind == 'exp':
                    out = self.padd(out, self.scale(at.data, e))
                else:
                    la = self.logatom(a)
                    out = self.padd(out, {((la, 1),): e})
            else:
                restm.append((a, e))
        core = q
        if len(q) == 1:
            core = {tuple(): 1}
            # q is a single non-extracted monomial
            (mm, cc), = q.items()
            for a, e in mm:
                at = self.atoms[a]
                if at.pos:
                    la = self.logatom(a)
                    out = self.padd(out, {((la, 1),): e})
                else:
                    restm.append((a, e))
        elif self.ispos(q):
            at = self.polyatom(q)
            la = self.logatom(at)
            out = self.padd(out, {((la, 1),): 1})
            core = {(): 1}
        if c < 0:
            restc = -1
        for n, s in ((abs(c).numerator, 1), (abs(c).denominator, -1)):
            for pr, e in factor(n).items():
                pa = self.atom(('prime', pr), 'prime', pr, pos=True)
                la = self.logatom(pa)
                out = self.padd(out, {((la, 1),): e * s})
        core = self.scale(core, restc)
        if restm:
            core = self.pmul(core, {tuple(sorted(restm)): 1})
        if not (len(core) == 1 and core.get(()) == 1):
            at = self.atom(('logopaque', frozenset(core.items())), 'log', None)
            self.atoms[at].t = ('log', core)
            out = self.padd(out, {((at, 1),): 1})
        return out

    def expp(self, p):
        out = self.one()
        for m, c in p.items():
            base = {m: 1}
            if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == 'log' \
                    and self.atoms[m[0][0]].data is not None:
                a = self.atoms[m[0][0]].data
                out = self.pmul(out, self.reduce({((a, c),): 1}))
                continue
            if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == 'log' and c.denominator == 1 and abs(c) < 5 \
                    and isinstance(self.atoms[m[0][0]].t, tuple) and sum(m[0][0] in [a for a, _ in m2] for m2 in p) == 1:
                core = self.atoms[m[0][0]].t[1]     # log was taken of it: positive
                out = self.pmul(out, self.ppow(core, int(c)) if c > 0 else self.inv(self.ppow(core, int(-c))))
                continue
            at = self.atom(('exp', m), 'exp', base, pos=True)
            out = self.pmul(out, {((at, c),): 1})
        return out

    def trig(self, p):
        """sin, cos of normal form p -> (sinpoly, cospoly)"""
        if not p:
            return {}, self.one()
        if len(p) > 4 or not self.expand:
            return self.trigatom(p)
        s, c = {}, self.one()
        for m in sorted(p):
            s1, c1 = self.trig1(m, Fraction(p[m]))
            s, c = (self.padd(self.pmul(s, c1), self.pmul(c, s1)),
                    self.padd(self.pmul(c, c1), self.pmul(s, s1), -1))
        return s, c

    def trigatom(self, p):
        lead = max(p)
        s = 1
        if p[lead] < 0:
            s = -1
            p = self.scale(p, -1)
        k = frozenset(p.items())
        sa = self.atom(('sin', k), 'sin', None)
        ca = self.atom(('cos', k), 'cos', sa)
        return {((sa, 1),): s}, {((ca, 1),): 1}

    def trig1(self, m, q):
        """sin, cos of q*m"""
        sg = 1 if q > 0 else -1
        q = abs(q)
        base = None
        if not m:
            return self.trigatom({m: _n(sg * q)})
        if len(m) == 1 and m[0][1] == 1:
            at = self.atoms[m[0][0]]
            if at.key == ('pi',):
                if (2 * q).denominator == 1:
                    n = int(2 * q) % 4
                    return self.one(sg * [0, 1, 0, -1][n]), self.one([1, 0, -1, 0][n])
            elif at.kind == 'itrig' and q.denominator == 1:
                base = self.itrig(at)
        n = q.numerator
        if n > 6:
            return self.trigatom({m: _n(sg * q)})
        if base is None:
            base = self.trigatom({m: _n(Fraction(1, q.denominator))})
        bs, bc = base
        s, c = bs, bc
        for _ in range(n - 1):
            s, c = (self.padd(self.pmul(s, bc), self.pmul(c, bs)), self.padd(self.pmul(c, bc), self.pmul(s, bs), -1))
        return self.scale(s, sg), c

    def itrig(self, at):
        op, a = at.data
        H = Fraction(1, 2)
        if op in ('asin', 'acos'):
            r = self.fracpow(self.padd(self.one(), self.pmul(a[0], a[0]), -1), H)
            return (a[0], r) if op == 'asin' else (r, a[0])
        if op == 'atan':
            h = self.inv(self.fracpow(self.padd(self.one(), self.pmul(a[0], a[0])), H))
            return self.pmul(a[0], h), h
        y, x = a
        h = self.inv(self.fracpow(self.padd(self.pmul(x, x), self.pmul(y, y)), H))
        return self.pmul(y, h), self.pmul(x, h)

    # ----- term -> normal form
    def nf(self, t):
        cache = self.cache
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in cache:
                stack.pop()
                continue
            todo = [a for a in x.args if isinstance(a, T) and a.id not in cache]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            cache[x.id] = self._nf(x)
        return cache[t.id]

    def _nf(self, t):
        op = t.op
        c = self.cache
        if op == 'c':
            return self.one(_n(t.args[0]))
        if op == 'v':
            n = t.args[0]
            return {((self.atom(('v', n), 'v', n, pos=n in self.posvars), 1),): 1}
        if op == 'pi':
            return {((self.atom(('pi',), 'v', 'pi', pos=True), 1),): 1}
        a = [c[x.id] if isinstance(x, T) else x for x in t.args]
        if op == '+':
            return self.padd(a[0], a[1])
        if op == '*':
            return self.pmul(a[0], a[1])
        if op == '/':
            if not a[1]:
                raise ZeroDivisionError
            return self.pmul(a[0], self.inv(a[1]))
        if op == '^':
            if a[1] > 0:
                return self.ppow(a[0], a[1])
            return self.ppow(self.inv(a[0]), -a[1])
        if op == 'rpow':
            return self.fracpow(a[0], a[1])
        if op == 'sqrt':
            return self.fracpow(a[0], Fraction(1, 2))
        if op == 'abs':
            return self.absp(a[0])
        if op == 'log':
            return self.logp(a[0])
        if op == 'exp':
            return self.expp(a[0])
        if op == 'sin':
            return self.trig(a[0])[0]
        if op == 'cos':
            return self.trig(a[0])[1]
        if op == 'tan':
            s, co = self.trig(a[0])
            return self.pmul(s, self.inv(co))
        if op in ('csre', 'csim'):
            k = (frozenset(a[0].items()), frozenset(a[1].items()))
            ra = self.atom(('csre',) + k, 'csre', None, nonneg=True)
            ia = self.atom(('csim',) + k, 'csim', None)
            if self.atoms[ra].data is None:
                self.atoms[ra].data = (a[0], a[1], ia)
                self.atoms[ia].data = (a[0], a[1], ra)
            return {((ra if op == 'csre' else ia, 1),): 1}
        if op in ('asin', 'atan', 'sinh', 'tanh') and a[0]:
            # odd functions: canonical sign
            sg, y = 1, a[0]
            if y[max(y)] < 0:
                sg, y = -1, self.scale(y, -1)
            if op == 'atan' and y == self.one():
                return self.scale({((self.atom(('pi',), 'v', 'pi', pos=True), 1),): 1}, Fraction(sg, 4))
            at = self.atom((op, frozenset(y.items())), 'itrig' if op in ('asin', 'atan') else 'uf', (op, [y]))
            self.atoms[at].t = self.atoms[at].t or (op, y)
            return {((at, 1),): sg}
        if op in ('acos', 'atan2'):
            at = self.atom((op,) + tuple(frozenset(x.items()) for x in a), 'itrig', (op, a))
            return {((at, 1),): 1}
        if op == 'Phi':
            # Phi(-x) = 1 - Phi(x)
            y = a[0]
            if not y:
                return self.one(Fraction(1, 2))
            neg = y[max(y)] < 0
            if neg:
                y = self.scale(y, -1)
            at = self.atom(('Phi', frozenset(y.items())), 'uf', None, pos=True)
            self.atoms[at].t = self.atoms[at].t or ('Phi', y)
            r = {((at, 1),): 1}
            return self.padd(self.one(), r, -1) if neg else r
        if op == 'iPhi':
            # iPhi(1 - p) = -iPhi(p)
            y = self.padd(a[0], self.one(Fraction(1, 2)), -1)
            if not y:
                return {}
            sg = 1
            if y[max(y)] < 0:
                sg, y = -1, self.scale(y, -1)
            at = self.atom(('iPhi', frozenset(y.items())), 'uf', None)
            self.atoms[at].t = self.atoms[at].t or ('iPhi', self.padd(y, self.one(Fraction(1, 2))))
            return {((at, 1),): sg}
        # opaque
        key = (op,) + tuple(frozenset(x.items()) if isinstance(x, dict) else x for x in a)
        pos = op in ('Phi', 'chi2cdf') or (op == 'uf' and t.args[0] in POSUF)
        at = self.atom(key, 'uf', None, pos=pos)
        if self.atoms[at].t is None:
            self.atoms[at].t = t
        return {((at, 1),): 1}

    def iszero(self, p):
        """exact zero test: clear denominators of poly atoms, expand"""
        for _ in range(50):
            if not p:
                return True
            low = {}
            frac = {}
            for m in p:
                for a, e in m:
                    k = self.atoms[a].kind
                    if k == 'poly':
                        low.setdefault(a, set()).add(e)
            if not low:
                return not p
            a = max(low)            # latest-created first: its polynomial only uses older atoms
            es = low[a]
            # group by fractional part; each class must vanish separately or be cleared together
            mn = min(list(es) + ([0] if any(all(x[0] != a for x in m) for m in p) else []))
            fracs = set((e - (e.numerator // e.denominator if isinstance(e, Fraction) else e)) for e in es)
            if mn >= 0 and all(e < 1 for e in es):
                # only fractional powers 0<e<1 left: treat as algebraically independent
                groups = {}
                for m, c in p.items():
                    e = dict(m).get(a, 0)
                    groups.setdefault(e, {})[tuple(x for x in m if x[0] != a)] = c
                return all(self.iszero(g) for g in groups.values())
            k = -(mn.numerator // mn.denominator if isinstance(mn, Fraction) else mn)
            k = max(k, 0)
            if k:
                q = {}
                sh = ((a, k),)
                for m, c in p.items():
                    mm = self.mmul(m, sh)
                    q[mm] = q.get(mm, 0) + c
                p = self.reduce({m: c for m, c in q.items() if c})
            else:
                p = self.reduce(p)
        raise TooBig()


POSUF = set()


def _n(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    return x


_fc = {}


def factor(n):
    if n in _fc:
        return _fc[n]
    r, m, p = {}, n, 2
    while p * p <= m:
        while m % p == 0:
            r[p] = r.get(p, 0) + 1
            m //= p
        p += 1 if p == 2 else 2
        if p > 20000:
            break
    if m > 1:
        r[m] = r.get(m, 0) + 1      # large cofactor kept as one 'prime' base
    _fc[n] = r
    return r
