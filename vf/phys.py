"""Shared contracts for the physics harnesses: Wilson coefficients, CKM, running couplings/masses."""
from . import sym as S
from .sym import R, Z
from .term import ZERO
from . import term as tm


def _basis(eft, basis):
    from wilson import wcxf
    return wcxf.Basis[eft, basis]


class _VD(dict):
    pass


from flavio.physics.eft import WilsonCoefficients


class WCStub(WilsonCoefficients):
    """An arbitrary new-physics point: every Wilson coefficient of the requested sector is an arbitrary
    complex number (function of its name and the scale). Same interface as WilsonCoefficients."""

    def __init__(self, v, pre='wc', zero=(), scale=1.0, keep=None, only_zero=False):
        self.v, self.pre, self.zero, self.scale, self.keep = v, pre, zero, scale, keep
        self.conj = False
        self.calls = []
        self.wc = True
        self._options = {}
        self._cache = {}

    def val(self, name, scale):
        if self.keep is not None and not self.keep(name):
            return 0
        if callable(self.zero) and self.zero(name):
            return 0
        x = self.v.cplx('%s.%s@%s' % (self.pre, name, _sc(scale)), scale=self.scale)
        return x.real if name in ('CG', 'CGtilde') else x        # real coefficients

    def names(self, sector, eft, basis):
        from flavio.physics.eft import sectors_flavio2wcxf as m
        b = _basis(eft, basis)
        if sector == 'all':
            return list(b.all_wcs)
        return list(b.sectors[m.get(sector, sector)].keys())

    def get_wc(self, sector, scale, par, eft='WET', basis='flavio', nf_out=None):
        self.calls.append((sector, scale, eft))
        names = self.names(sector, eft, basis)
        if len(names) > 400:
            return LazyWC(self, set(names), scale)
        return LazyWC(self, set(names), scale, order=names)

    def get_wcxf(self, sector, scale, par, eft='WET', basis='flavio', nf_out=None):
        self.calls.append((sector, scale, eft))
        names = self.names(sector, eft, basis)

        class W:
            dict = LazyWC(self, set(names), scale)

            def __getitem__(self, k):
                return self.dict[k]
        W.values = W.dict
        W.scale, W.eft, W.basis = scale, eft, basis
        return W()


class LazyWC(dict):
    """complete dictionary, values created when read"""

    def __init__(self, stub, names, scale, order=None, vals=None):
        super().__init__(vals or {})
        self.stub, self.names, self.scale, self.order = stub, names, scale, order or sorted(names)

    def __missing__(self, k):
        if k in self.names:
            x = self.stub.val(k, self.scale)
            dict.__setitem__(self, k, x)
            return x
        raise KeyError(k)

    def get(self, k, d=None):
        if k in self.names or dict.__contains__(self, k):
            return self[k]
        return d

    def __contains__(self, k):
        return k in self.names or dict.__contains__(self, k)

    def __iter__(self):
        for k in self.order:
            yield k
        for k in dict.keys(self):
            if k not in self.names:
                yield k

    def keys(self):
        return list(iter(self))

    def items(self):
        return [(k, self[k]) for k in self]

    def values(self):
        return [self[k] for k in self]

    def __len__(self):
        return len(self.keys())

    def copy(self):
        return LazyWC(self.stub, self.names, self.scale, self.order, dict(dict.items(self)))
    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()


def _sc(s):
    if isinstance(s, (int, float)):
        return '%g' % s
    return 's'


def wcs(v, pre='wc', **k):
    return WCStub(v, pre, **k)


class SMStub(WCStub):
    def val(self, name, scale):
        return 0


def smwc(v):
    return SMStub(v)


# ------------------------------------------------------------------ CKM
def ckm_contract(v, unitary=False):
    """get_ckm(par): 3x3 complex matrix, a function of the CKM parameters alone, conjugated when the
    CP-odd phase flips sign (proved for the real function in C12)."""
    from flavio.physics import ckm
    import numpy as np

    def h(par_dict):
        par = par_dict
        g = par['gamma']
        conj = False
        if isinstance(g, R) and g.t.op == '*' and g.t.args[0] is tm.NEG1:
            g, conj = -g, True
        V = np.empty((3, 3), dtype=object)
        for i in range(3):
            for j in range(3):
                V[i, j] = v.ufc('V%d%d' % (i, j), par['Vus'], par['Vub'], par['Vcb'], g)
                if conj:
                    V[i, j] = V[i, j].conjugate()
        return V
    v.contract(ckm.get_ckm, h)


# ------------------------------------------------------------------ running (dependency contracts)
class QCDModel:
    """wilson.util.qcd: running coupling and masses are positive functions of their arguments"""

    def __getattr__(self, n):
        def f(*a, **k):
            args = list(a) + [k[x] for x in sorted(k)]
            if S.CTX is None or not any(isinstance(x, (R, Z)) for x in args):
                from wilson.util import qcd
                return getattr(qcd, n)(*a, **k)
            ks = [str(x) if isinstance(x, str) else x for x in a] + [y for x in sorted(k) for y in (x, k[x])]
            return S.CTX.uf('qcd.' + n, *ks, pos=True)
        return f


class RundecModel:
    class CRunDec:
        def __getattr__(self, n):
            def f(*a, **k):
                if S.CTX is None or not any(isinstance(x, (R, Z)) for x in a):
                    import rundec
                    return getattr(rundec.CRunDec(), n)(*a, **k)
                return S.CTX.uf('rundec.' + n, *[str(x) if x is None else x for x in a], pos=True)
            return f


def running_contract(v):
    from flavio.physics.running import running

    def ae(par, scale, nf_out=None):
        return v.uf('alpha_e', par['alpha_e'], scale, str(nf_out), pos=True)

    def mtmt(par):
        return v.uf('mt_mt', par['m_t'], par['alpha_s'], pos=True, dom=(150., 170.))
    v.contract(running.get_alpha_e, ae)
    v.contract(running.get_mt_mt, mtmt)


# ------------------------------------------------------------------ form factors, quark masses, integrals
FF_P = ('f+', 'f0', 'fT')
FF_V = ('A0', 'A1', 'A12', 'V', 'T1', 'T2', 'T23')


def ff_keys(name):
    """form factor names by the final state of 'X->Y form factor'"""
    fin = name.split('->')[-1].split(' ')[0]
    return FF_P if fin in ('K', 'pi', 'D') else FF_V


def ff_contract(v, positive=False):
    """AuxiliaryQuantity '... form factor': arbitrary real functions of q2 (the parameters being fixed);
    at q2 = 0 f+ = f0 is not assumed"""
    from flavio.classes import AuxiliaryQuantity

    def h(self, par_dict, wc_obj, *args, **kw):
        q2 = kw.get('q2', args[0] if args else None)
        if not self.name.endswith('form factor'):
            return v.ufc('aux.' + self.name, *([q2] if q2 is not None else []))
        return {k: v.uf('%s.%s' % (self.name, k), q2, pos=positive) for k in ff_keys(self.name)}
    v.contract(AuxiliaryQuantity.prediction, h)


def ff_of(v, name, q2, positive=False):
    return {k: v.uf('%s.%s' % (name, k), q2, pos=positive) for k in ff_keys(name)}


MASSRUN = ('mb', 'mc', 'ms', 'mu', 'md', 'mbpole', 'mcpole', 'mbMSbar')
MASSVAL = {'mb': (3., 5.), 'mc': (0.6, 1.5), 'ms': (0.05, 0.15), 'mu': (0.001, 0.004), 'md': (0.004, 0.008)}


def masses_contract(v, names=('mb', 'mc', 'ms', 'mu', 'md')):
    """running quark masses are positive functions of the scale"""
    from flavio.physics.running import running
    for n in names:
        def h(par, scale, nf_out=None, n=n):
            return runmass(v, n, scale)
        v.contract(getattr(running, 'get_' + n), h)

    def al(par, scale, nf_out=None):
        return {'alpha_e': v.uf('alpha_e', scale, pos=True, dom=(0.007, 0.008)), 'alpha_s': v.uf('alpha_s', scale, pos=True, dom=(0.1, 0.4))}
    v.contract(running.get_alpha, al)

    def ale(par, scale, nf_out=None):
        return al(par, scale)['alpha_e']
    v.contract(running.get_alpha_e, ale)


def runmass(v, n, scale):
    return v.uf('run.' + n, scale, pos=True, dom=MASSVAL.get(n, (0.1, 5.)))


def integral_contract(v, n=2, nodes=None, weights=None):
    """nodes: fixed points instead of arbitrary ones; numerical integration is a quadrature rule: int_a^b f = (b-a) sum_k w_k f(a + t_k (b-a)) with arbitrary nodes
    0 < t_k < 1 and positive weights (the same rule for every integral)"""
    import flavio
    n = len(nodes) if nodes is not None else n
    w = [v.real('quad.w%d' % k, pos=True, dom=(0.2, 1.0)) for k in range(n)]
    t = [v.real('quad.t%d' % k, dom=(0.05, 0.95)) for k in range(n if nodes is None else 0)]
    for x in t:
        v.assume_(v.gt(x, 0))
        v.assume_(v.gt(1, x))

    def quad(f, a, b, *args, **kw):
        if not v.sym:
            return flavio.math.integrate.nintegrate(f, a, b)
        if nodes is not None:
            return (b - a)*sum(w[k]*f(nodes[k]) for k in range(n))
        return (b - a)*sum(w[k]*f(a + t[k]*(b - a)) for k in range(n))
    for name in ('nintegrate', 'nintegrate_fast', 'nintegrate_complex', 'nintegrate_quadrature'):
        if hasattr(flavio.math.integrate, name):
            v.contract(getattr(flavio.math.integrate, name), lambda f, a, b, *x, **k: quad(f, a, b))
    return quad
