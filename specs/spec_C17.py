"""C17 hadronic form factors obey the exact kinematic relations of the matrix elements they parametrize"""
import warnings
import numpy as np
from vf.api import harness
import flavio
from flavio.classes import AuxiliaryQuantity, Implementation
from flavio.physics.bdecays.formfactors import common, hqet
from flavio.physics.bdecays.formfactors.b_p import bcl, bcl_lmvd, bsz as pbsz, cln as pcln, btop
from flavio.physics.bdecays.formfactors.b_v import bsz, cln, clnexp, sse, isgurwise
from flavio.physics.bdecays.formfactors.lambdab_12 import sse as lsse
from flavio.physics.bdecays.formfactors.lambdab_32 import LatticeQCD, QuarkModel_MCN
from flavio.physics.ddecays import formfactors as dff
from flavio.physics.kdecays import formfactors as kff
from flavio.physics.running import running

F_ = 'flavio.physics.bdecays.formfactors.'
COEF = (-1.5, 1.5)


class Coefs:
    """parameter values: masses as in flavio, all expansion coefficients arbitrary"""

    def __init__(self, v, **masses):
        self.v, self.d, self.read = v, dict(masses), set()

    def __getitem__(self, k):
        if k not in self.d:
            if ' BCL m' in k or ' LMVD m' in k:
                x = self.v.real('par.' + k, pos=True, dom=(5.8, 6.5))
            elif k.startswith('m_'):
                x = self.v.real('par.' + k, pos=True, dom=(0.5, 5))
            else:
                x = self.v.real('par.' + k, dom=COEF)
            self.d[k] = x
        self.read.add(k)
        return self.d[k]

    def __setitem__(self, k, x):
        self.d[k] = x

    def get(self, k, d=None):
        return self[k]

    def copy(self):
        c = Coefs(self.v)
        c.d, c.read = self.d, self.read
        c.d = dict(self.d)
        c.parent = self
        return c
    __copy__ = copy


def masses(v, lo=(0.1, 2.0), hi=(4.5, 5.5)):
    m = v.real('m', pos=True, dom=lo)
    M = v.real('M', pos=True, dom=hi)
    v.assume_(v.gt(M, m))
    return M, m


def implementation(name, par, q2):
    return Implementation[name].function(wc_obj=None, par_dict=par, q2=q2)


# ------------------------------------------------------------------ conformal variable
@harness('C17', targets=[F_ + 'common.z'], note='z(t0)=0, |z|<1 below threshold, decreasing, symmetric range for the optimal t0')
def conformal_variable(v):
    """z maps q^2=t0 to 0 and the interval below the threshold into (-1,1) monotonically; the default t0 makes the
    semileptonic range symmetric"""
    M, m = masses(v)
    f = getattr(common.z, '__wrapped__', common.z)
    tp, tm = (M + m)**2, (M - m)**2
    t0 = v.real('t0', dom=(-5, 5))
    q2 = v.real('q2', dom=(-5, 6))
    v.assume_(v.gt(tp, t0))
    v.assume_(v.gt(tp, q2))
    v.ensure('zero at t0', v.eq(f(M, m, t0, t0), 0, tol=1e-12, scale=1))
    v.ensure('zero at t0=tm', v.eq(f(M, m, tm, 'tm'), 0, tol=1e-12, scale=1))
    z = f(M, m, q2, t0)
    a, b = v.fsqrt(tp - q2), v.fsqrt(tp - t0)
    v.lemma('definition', v.eq(z*(a + b), a - b, tol=1e-10, scale=1))
    v.ensure('inverse', v.eq((tp - q2)*(1 - z)**2, (tp - t0)*(1 + z)**2, tol=1e-9, scale=10))
    v.ensure('below 1', v.gt(1 - z, 0))
    v.ensure('above -1', v.gt(1 + z, 0))
    s = f(M, m, 0) + f(M, m, tm)
    v.ensure('optimal t0', v.eq(s, 0, tol=1e-9, scale=1))


@harness('C17', targets=[F_ + 'common.w_minus_1_pow_n'], note='expansion of (w-1)^n through the given order in z')
def recoil_expansion(v):
    """the monomials (w-1)^n are expanded in z through the requested order: the remainder is of higher order"""
    n = v.choice('n', [0, 1, 2, 3])
    o = v.choice('order', [0, 1, 2, 3])
    z = v.real('z', dom=(-0.9, 0.9))
    got = common.w_minus_1_pow_n(z, n, o)
    # w-1 = 8z/(1-z)^2
    ref = 0
    for k in range(o + 1):
        if n == 0:
            c = 1 if k == 0 else 0
        else:                # coefficient of z^k in (8z)^n (1-z)^(-2n)
            j = k - n
            c = 0
            if j >= 0:
                c = 8**n
                for i in range(j):
                    c = c*(2*n + i)//(i + 1)
        ref = ref + c*z**k
    v.ensure('coefficients', v.eq(got, ref, tol=1e-10, scale=10))


# ------------------------------------------------------------------ B -> P
def bp_setup(v, pd, p, key='B'):
    par = Coefs(v)
    M, m = masses(v)
    par['m_' + pd[p][key]] = M
    par['m_' + pd[p]['P']] = m
    return par, M, m


BP = ['B->K BSZ3', 'B->K BCL3', 'B->K BCL3 t0=0', 'B->K BCL4', 'B->K BCL3-IW', 'B->K BCL4-IW', 'B->K BCL3-IW-t0max',
      'B->K BCL4-IW-t0max', 'B->pi BSZ3', 'B->pi BCL3', 'B->pi BCL4', 'B->pi BCL4-LMVD', 'B->pi BCL3-IW', 'B->D BCL3', 'B->D BSZ3',
      'B->pi BCL3 t0=0', 'B->D BCL4-IW-t0max']


@harness('C17', targets=[F_ + 'b_p.bcl.ff', F_ + 'b_p.bcl.ff_isgurwise', F_ + 'b_p.bcl.param_fplusT', F_ + 'b_p.bcl.param_f0',
                         F_ + 'b_p.bsz.ff', F_ + 'b_p.bsz.zs', F_ + 'b_p.bcl_lmvd.ff', F_ + 'b_p.bcl_lmvd.param_fplusT',
                         F_ + 'b_p.bcl_lmvd.param_f0', F_ + 'b_p.bcl.pole', F_ + 'b_p.btop.ff_function'],
         max_paths=400, note='all series parametrizations of B -> P; arbitrary masses, pole masses and coefficients')
def bp_maximum_recoil(v):
    """f+(0) = f0(0) for every series parametrization of B -> P, whatever the coefficients"""
    name = v.choice('implementation', BP)
    p = name.split()[0]
    par, M, m = bp_setup(v, bcl_lmvd.process_dict if 'LMVD' in name else bcl.process_dict, p)
    if 'LMVD' in name:
        pd = bcl_lmvd.process_dict[p]
        par[p + ' BCL LMVD m_' + pd['B']], par[p + ' BCL LMVD m_' + pd['P']] = M, m
    f = implementation(name, par, 0)
    v.ensure('f+(0)=f0(0)', v.eq(f['f+'], f['f0'], tol=1e-9, scale=5))
    v.ensure('all form factors', set(f) == {'f+', 'f0', 'fT'})


@harness('C17', targets=[F_ + 'b_p.bcl.param_fplusT', F_ + 'b_p.bcl.param_f0'],
         note='n = 1..5 coefficients; z is an arbitrary number in (-1, 1)')
def bcl_threshold(v):
    """the BCL series of f+ and fT has vanishing slope in z at the pair production threshold z = -1"""
    n = v.choice('n', [1, 2, 3, 4, 5])
    a = [v.real('a%d' % k, dom=COEF) for k in range(n)]
    M, m = masses(v)
    z = v.real('z', dom=(-0.9, 0.9))
    v.setattr(bcl, 'z', lambda mB, mP, q2, t0=None: z)
    q2 = v.real('q2', dom=(0, 5))
    got = bcl.param_fplusT(M, m, a, q2, None)
    # integral of the slope: d/dz = sum_k k a_k (z^(k-1) + (-1)^(k-n) (-1) z^(n-1)), which vanishes at z=-1
    ref = sum(a[k]*(z**k - (-1)**(n - k)*z**n*k/n) for k in range(n))
    v.ensure('series', v.eq(got, ref, tol=1e-9, scale=5))
    slope = sum(k*a[k]*((-1)**(k + 1) - (-1)**(n - k)*(-1)**(n - 1)) for k in range(n))
    v.ensure('no slope at threshold', v.eq(slope, 0))
    v.ensure('scalar series', v.eq(bcl.param_f0(M, m, a, q2, None), sum(a[k]*z**k for k in range(n)), tol=1e-9, scale=5))


@harness('C17', targets=['flavio.physics.ddecays.formfactors.bcl.ff', 'flavio.physics.ddecays.formfactors.bsz.ff',
                         'flavio.physics.ddecays.formfactors.ff_function'], max_paths=200)
def dp_maximum_recoil(v):
    """f+(0) = f0(0) for D -> P"""
    name = v.choice('implementation', ['D->pi BSZ2', 'D->pi BSZ3', 'D->pi BCL2', 'D->K BSZ2', 'D->K BSZ3', 'D->K BCL2'])
    p = name.split()[0]
    par, M, m = bp_setup(v, dff.bcl.process_dict, p, 'D')
    f = implementation(name, par, 0)
    v.ensure('f+(0)=f0(0)', v.eq(f['f+'], f['f0'], tol=1e-9, scale=5))
    v.ensure('all form factors', set(f) == {'f+', 'f0', 'fT'})


@harness('C17', targets=['flavio.physics.kdecays.formfactors.fp0_dispersive', 'flavio.physics.kdecays.formfactors.fT_pole',
                         'flavio.physics.kdecays.formfactors.ff_dispersive_pole'])
def kp_maximum_recoil(v):
    """f+(0) = f0(0) for K -> pi, equal to the normalization parameter; the slope of f+ is Lambda_+/m_pi^2"""
    par = Coefs(v)
    M, m = masses(v, (0.1, 0.15), (0.45, 0.55))
    par['m_KL'], par['m_pi+'] = M, m
    f = implementation('K->pi dispersive + pole', par, 0)
    v.ensure('f+(0)', v.eq(f['f+'], par['K->pi f+(0)'], tol=1e-9, scale=1))
    v.ensure('f+(0)=f0(0)', v.eq(f['f+'], f['f0'], tol=1e-9, scale=1))
    v.ensure('fT(0)', v.eq(f['fT'], par['K->pi fT(0)'], tol=1e-9, scale=1))


# ------------------------------------------------------------------ linearity in the coefficients, poles
SERIES = {name: None for name in BP}


@harness('C17', targets=[F_ + 'b_p.bsz.ff', F_ + 'b_p.bsz.zs', F_ + 'b_p.bcl.ff', F_ + 'b_p.bcl.pole', F_ + 'b_p.bsz.pole',
                         F_ + 'b_v.bsz.ff', F_ + 'b_v.bsz.zs', F_ + 'b_v.bsz.pole', F_ + 'b_v.sse.ff', F_ + 'lambdab_12.sse.ff', F_ + 'lambdab_12.sse.pole'],
         max_paths=300, note='pole masses nonzero; q^2 below the poles')
def poles(v):
    """form factors divided by the pole of the resonance with their quantum numbers are finite series in z:
    f(q^2) (1 - q^2/m^2) depends on q^2 through z only"""
    kind = v.choice('kind', ['BP BSZ', 'BP BCL', 'BV BSZ', 'BV SSE', 'Lb SSE'])
    q2 = v.real('q2', dom=(0.1, 10))
    z1, z0 = v.real('z', dom=(-0.5, 0.5)), v.real('z0', dom=(-0.5, 0.5))
    par = Coefs(v)
    zf = lambda mB, mP, q, t0=None: z1 if q is q2 else z0
    if kind[:2] == 'BP':
        mod = pbsz if 'BSZ' in kind else bcl
        v.setattr(mod, 'z', zf)
        if 'BSZ' in kind:
            v.setattr(mod, 'zs', getattr(pbsz.zs, '__wrapped__', pbsz.zs))
        par['m_B0'], par['m_K0'] = 5.28, 0.498
        m1, m0 = v.real('m1', pos=True, dom=(5.3, 6)), v.real('m0', pos=True, dom=(5.3, 6))
        par['B->K BCL m+'], par['B->K BCL m0'] = m1, m0
        par['B->K BCL chL'] = 1
        f = implementation('B->K ' + ('BSZ3' if 'BSZ' in kind else 'BCL3'), par, q2)
        for k, m in (('f+', m1), ('fT', m1), ('f0', m0)):
            a = [par['B->K %s a%d_%s' % (kind[3:], j, k)] for j in range(3)]
            if kind == 'BP BSZ':
                if k == 'f0':
                    a[0] = par['B->K BSZ a0_f+']
                ref = sum(a[j]*(z1 - z0)**j for j in range(3))
            elif k == 'f0':
                fp0 = sum(par['B->K BCL a%d_f+' % j]*(z0**j - (-1)**(3 - j)*z0**3*j/3) for j in range(3))
                v.assume_(v.gt(z0**2, 0.001))
                ref = a[0] + a[1]*z1 + (fp0 - a[0] - a[1]*z0)/z0**2*z1**2
            else:
                ref = sum(a[j]*(z1**j - (-1)**(3 - j)*z1**3*j/3) for j in range(3))
            v.ensure('pole ' + k, v.eq(f[k]*(m**2 - q2), m**2*ref, tol=1e-8, scale=50))
    elif kind == 'BV BSZ':
        v.setattr(bsz, 'z', zf)
        v.setattr(bsz, 'zs', getattr(bsz.zs, '__wrapped__', bsz.zs))
        n = v.choice('n', [2, 3])
        p = v.choice('process', sorted(bsz.process_dict))
        pd = bsz.process_dict[p]
        M, m = masses(v)
        par['m_' + pd['B']], par['m_' + pd['V']] = M, m
        mres = {k: v.real('m' + k, pos=True, dom=(5.2, 6.5)) for k in ('m0', 'm1-', 'm1+')}
        for k in mres:
            par[p + ' BCL ' + k] = mres[k]
        f = implementation('%s BSZ%d' % (p, n), par, q2)
        for k, mr in (('A0', 'm0'), ('V', 'm1-'), ('T1', 'm1-'), ('A1', 'm1+'), ('A12', 'm1+'), ('T2', 'm1+'), ('T23', 'm1+')):
            a = [par['%s BSZ a%d_%s' % (p, j, k)] for j in range(n)]
            if k == 'A12':
                a[0] = par[p + ' BSZ a0_A0']*(M**2 - m**2)/(8*M*m)
            if k == 'T2':
                a[0] = par[p + ' BSZ a0_T1']
            v.ensure('pole ' + k, v.eq(f[k]*(mres[mr]**2 - q2), mres[mr]**2*sum(a[j]*(z1 - z0)**j for j in range(n)), tol=1e-8, scale=50))
    elif kind == 'BV SSE':
        v.setattr(sse, 'z', zf)
        p = v.choice('process', sorted(sse.process_dict))
        f = implementation(p + ' SSE', par, q2)
        mr = {'s': [5.366, 5.414, 5.829], 'd': [5.279, 5.324, 5.716]}[sse.process_dict[p]['q'][-1]]
        for k, i in (('A0', 0), ('V', 1), ('T1', 1), ('A1', 2), ('A12', 2), ('T2', 2), ('T23', 2)):
            a = [par['%s SSE %s_a%d' % (p, k.lower(), j)] for j in range(2)]
            v.ensure('pole ' + k, v.eq(f[k]*(1 - q2/mr[i]**2), a[0] + a[1]*z1, tol=1e-8, scale=5))
    else:
        v.setattr(lsse, 'z', zf)
        p = 'Lambdab->Lambda'
        f = implementation(p + ' SSE2', par, q2)
        mr = {'1-': 5.416, '0+': 5.711, '1+': 5.750, '0-': 5.367}
        for k, i in (('fV0', '1-'), ('fVperp', '1-'), ('fT0', '1-'), ('fTperp', '1-'), ('fVt', '0+'), ('fA0', '1+'),
                     ('fAperp', '1+'), ('fT50', '1+'), ('fT5perp', '1+'), ('fAt', '0-')):
            k0 = {'fAperp': 'fA0', 'fT5perp': 'fT50'}.get(k, k)
            a = [par['%s SSE a0_%s' % (p, k0)], par['%s SSE a1_%s' % (p, k)]]
            v.ensure('pole ' + k, v.eq(f[k]*(1 - q2/mr[i]**2), a[0] + a[1]*z1, tol=1e-8, scale=5))


# ------------------------------------------------------------------ B -> V
@harness('C17', targets=[F_ + 'b_v.bsz.ff', F_ + 'b_v.bsz.zs', F_ + 'b_v.btov.ff_function'], max_paths=200)
def bv_maximum_recoil(v):
    """T1(0) = T2(0) and A0(0) = 8 mB mV/(mB^2-mV^2) A12(0) for B -> V, whatever the coefficients"""
    p = v.choice('process', sorted(bsz.process_dict))
    n = v.choice('n', [2, 3])
    pd = bsz.process_dict[p]
    par = Coefs(v)
    M, m = masses(v)
    par['m_' + pd['B']], par['m_' + pd['V']] = M, m
    f = implementation('%s BSZ%d' % (p, n), par, 0)
    v.ensure('T1(0)=T2(0)', v.eq(f['T1'], f['T2'], tol=1e-9, scale=5))
    v.ensure('A0(0) and A12(0)', v.eq(f['A0']*(M**2 - m**2), 8*M*m*f['A12'], tol=1e-9, scale=50))
    v.ensure('all form factors', set(f) == {'A0', 'A1', 'A12', 'V', 'T1', 'T2', 'T23'})


@harness('C17', targets=[F_ + 'b_v.cln.h_to_A', F_ + 'b_p.cln.h_to_f'],
         note='conversion derived from the two decompositions of the matrix elements in terms of the same tensors')
def hqet_conversion(v):
    """converting HQET to full QCD form factors preserves the matrix elements, coefficient by coefficient of every
    independent Lorentz structure, and so yields the kinematic constraints at q^2=0 and at zero recoil"""
    M, m = masses(v, (1.5, 2.5))
    q2 = v.real('q2', dom=(0.1, 5))
    mode = v.choice('mode', ['P', 'V'])
    r = v.fsqrt(M*m)
    w = (M**2 + m**2 - q2)/(2*M*m)
    if mode == 'P':
        h = {k: v.real(k, dom=COEF) for k in ('h+', 'h-', 'hT')}
        f = pcln.h_to_f(M, m, h, q2)
        # <P|V|B> = r (h+ (v+v') + h- (v-v')) = f+ (p+p' - (M^2-m^2)/q2 q) + f0 (M^2-m^2)/q2 q
        d = (f['f0'] - f['f+'])*(M**2 - m**2)/q2
        v.ensure('coefficient of v', v.eq(r*(h['h+'] + h['h-']), M*(f['f+'] + d), tol=1e-8, scale=50))
        v.ensure("coefficient of v'", v.eq(r*(h['h+'] - h['h-']), m*(f['f+'] - d), tol=1e-8, scale=50))
        # <P|sigma q|B> : r hT (v^mu v'^nu - v'^mu v^nu) q_nu = fT/(M+m) (q2 (p+p') - (M^2-m^2) q)
        # coefficient of v: r hT v'.q, v'.q = M w - m, p.q = (M^2-m^2+q2)/2
        v.ensure('tensor', v.eq(r*h['hT']*(M*w - m)*(M + m), -f['fT']*M*(q2 - (M**2 - m**2)), tol=1e-8, scale=500))
        g = pcln.h_to_f(M, m, h, 0)
        v.ensure('f+(0)=f0(0)', v.eq(g['f+'], g['f0'], tol=1e-8, scale=5))
        return
    h = {k: v.real('h' + k, dom=COEF) for k in ('V', 'A1', 'A2', 'A3', 'T1', 'T2', 'T3')}
    f = cln.h_to_A(M, m, h, q2)
    lam = M**4 + m**4 + q2**2 - 2*(M**2*m**2 + M**2*q2 + m**2*q2)
    # <V|A|B> = r (hA1 (w+1) eps - eps.v (hA2 v + hA3 v'))
    #         = (M+m) A1 (eps - eps.q/q2 q) - A2 eps.q/(M+m) (p+p' - (M^2-m^2)/q2 q) + 2 m A0 eps.q/q2 q, eps.q = M eps.v
    v.ensure('coefficient of eps', v.eq(r*h['A1']*(w + 1), (M + m)*f['A1'], tol=1e-8, scale=50))
    # A2 follows from the definition of A12
    A1, A0 = f['A1'], f['A0']
    A2 = (A1*(M + m)**2*(M**2 - m**2 - q2) - 16*M*m**2*(M + m)*f['A12'])/lam
    v.assume_(v.gt(lam, 0.5))
    d = (-(M + m)*A1 + A2*(M - m) + 2*m*A0)/q2
    v.ensure('coefficient of v', v.eq(-r*h['A2'], M*M*(-A2/(M + m) + d), tol=1e-6, scale=500))
    v.ensure("coefficient of v'", v.eq(-r*h['A3'], M*m*(-A2/(M + m) - d), tol=1e-6, scale=500))
    v.ensure('vector', v.eq(r*h['V']*(M + m), 2*M*m*f['V'], tol=1e-8, scale=50))
    # <V|sigma^{mu nu}|B> = r eps^{mu nu a b} (hT1 eps_a (v+v')_b + hT2 eps_a (v-v')_b + hT3 (eps.v) v_a v'_b), contracted with q
    # T1: coefficient of eps(eps,p,p') of sigma^{mu nu} q_nu is 2 T1: (v+v') x q -> (v+v') ^ (Mv - m v') = -(M+m) v^v', (v-v')^q = (M-m) v^v'
    v.ensure('T1', v.eq(2*M*m*f['T1'], r*((M + m)*h['T1'] - (M - m)*h['T2']), tol=1e-8, scale=50))
    # sigma^{mu nu} gamma5 q_nu, with sigma gamma5 = i/2 eps sigma: r [hT1 (eps^mu (v+v').q - eps.q (v+v')^mu) + hT2 (same with v-v') + hT3 eps.v (v^mu v'.q - v'^mu v.q)]
    #   = T2 ((M^2-m^2) eps - eps.q (p+p')) + T3 eps.q (q - q2/(M^2-m^2) (p+p'))
    vq, wq = M - m*w, M*w - m
    T2 = f['T2']
    v.ensure('T2', v.eq((M**2 - m**2)*T2, r*(h['T1']*(vq + wq) + h['T2']*(vq - wq)), tol=1e-8, scale=50))
    T3 = ((M**2 - m**2)*(M**2 + 3*m**2 - q2)*T2 - 8*M*(M - m)*m**2*f['T23'])/lam
    c = -T2 - T3*q2/(M**2 - m**2)
    v.ensure('T3: coefficient of v', v.eq(r*(-M*(h['T1'] + h['T2']) + h['T3']*wq), M*M*(c + T3), tol=1e-6, scale=500))
    v.ensure("T3: coefficient of v'", v.eq(r*(-M*(h['T1'] - h['T2']) - h['T3']*vq), M*m*(c - T3), tol=1e-6, scale=500))
    g = cln.h_to_A(M, m, h, 0)
    v.ensure('T1(0)=T2(0)', v.eq(g['T1'], g['T2'], tol=1e-8, scale=5))
    v.ensure('A0(0) and A12(0)', v.eq(g['A0']*(M**2 - m**2), 8*M*m*g['A12'], tol=1e-8, scale=50))
    x = (M - m)**2
    e = cln.h_to_A(M, m, h, x)
    v.ensure('zero recoil A12', v.eq(8*M*m*e['A12'], (M + m)*(M - m)*e['A1'], tol=1e-8, scale=50))
    v.ensure('zero recoil T23', v.eq(4*M*m*e['T23'], (M + m)**2*e['T2'], tol=1e-8, scale=50))


# ------------------------------------------------------------------ heavy quark expansion
def heavy_quark(v, limit):
    """expansion parameters and matching coefficients arbitrary (or zero in the heavy quark limit)"""
    c = {k: v.real(k, dom=COEF) for k in ('CV1', 'CV2', 'CV3', 'CA1', 'CA2', 'CA3', 'CT1', 'CT2', 'CT3')}
    for k in c:
        v.setattr(hqet, k, lambda w, z, k=k: c[k])
    e = {'ash': v.real('ash', dom=(0.05, 0.1)), 'epsc': v.real('epsc', dom=(0.1, 0.3)), 'epsb': v.real('epsb', dom=(0.02, 0.1)),
         'zc': v.real('zc', pos=True, dom=(0.2, 0.4))}
    if limit:
        e.update(ash=0, epsc=0, epsb=0)
    v.setattr(hqet, 'get_hqet_parameters', lambda par: dict(e))
    return c, e


def hq_masses(v, par, pd, k):
    M, m = masses(v, (1.5, 2.5))
    par['m_' + pd['B']], par['m_' + pd[k]] = M, m
    return M, m


@harness('C17', targets=[F_ + 'b_p.cln.ff', F_ + 'b_v.cln.ff', F_ + 'hqet.xi', F_ + 'hqet.Lz', F_ + 'hqet.ell', F_ + 'hqet.ell_i',
                         F_ + 'b_p.cln.h_to_f', F_ + 'b_v.cln.h_to_A'], max_paths=60,
         note='the perturbative matching functions are arbitrary numbers')
def heavy_quark_symmetry(v):
    """in the heavy quark limit all B -> D and B -> D* form factors are given by one Isgur-Wise function, which is one at zero
    recoil; the linear power corrections vanish at zero recoil for f0 (h+) and A1 (h_A1) (Luke's theorem)"""
    what = v.choice('what', ['P limit', 'V limit', 'P Luke', 'V Luke'])
    par = Coefs(v)
    if what[0] == 'P':
        M, m = hq_masses(v, par, pcln.process_dict['B->D'], 'P')
    else:
        M, m = hq_masses(v, par, cln.process_dict['B->D*'], 'V')
    c, e = heavy_quark(v, 'limit' in what)
    r = v.fsqrt(M*m)
    if 'limit' in what:
        w = v.real('w', dom=(1.01, 1.5))
        v.assume_(v.gt(w, 1))
        q2 = M**2 + m**2 - 2*M*m*w
        f = implementation('B->D%s CLN' % ('*' if what[0] == 'V' else ''), par, q2)
        z = common.z(M, m, q2, 'tm') if not v.sym else getattr(common.z, '__wrapped__', common.z)(M, m, q2, 'tm')
        x = 1 + sum(a*common.w_minus_1_pow_n(z, k, 3) for a, k in ((-par['CLN rho2_xi'], 1), (par['CLN c_xi'], 2), (par['CLN xi3']/6, 3)))
        if what[0] == 'P':
            v.ensure('f+', v.eq(2*r*f['f+'], (M + m)*x, tol=1e-7, scale=50))
            v.ensure('f0', v.eq((M + m)*f['f0'], r*(1 + w)*x, tol=1e-7, scale=50))
            v.ensure('fT', v.eq(2*r*f['fT'], (M + m)*x, tol=1e-7, scale=50))
        else:
            for k in ('V', 'A0', 'T1'):
                v.ensure(k, v.eq(2*r*f[k], (M + m)*x, tol=1e-7, scale=50))
            for k in ('A1', 'T2'):
                v.ensure(k, v.eq((M + m)*f[k], r*(1 + w)*x, tol=1e-7, scale=50))
        return
    q2 = (M - m)**2
    if what[0] == 'P':
        f = implementation('B->D CLN', par, q2)
        one = 1 + e['ash']*(c['CV1'] + c['CV2'] + c['CV3']) + e['epsc']**2*par['CLN l_1(1)']
        v.ensure('f0 at zero recoil', v.eq((M + m)*f['f0'], 2*r*one, tol=1e-6, scale=50))
    else:
        f = implementation('B->D* CLN', par, q2)
        one = 1 + e['ash']*c['CA1'] + e['epsc']**2*par['CLN l_2(1)']
        v.ensure('A1 at zero recoil', v.eq((M + m)*f['A1'], 2*r*one, tol=1e-6, scale=50))
        v.ensure('A12 at zero recoil', v.eq(8*M*m*f['A12'], (M**2 - m**2)*f['A1'], tol=1e-6, scale=50))
        v.ensure('T23 at zero recoil', v.eq(4*M*m*f['T23'], (M + m)**2*f['T2'], tol=1e-6, scale=50))


@harness('C17', targets=[F_ + 'b_p.cln.ff', F_ + 'b_v.cln.ff', F_ + 'hqet.xi', F_ + 'hqet.Lz', F_ + 'hqet.ell', F_ + 'hqet.ell_i'],
         max_paths=60, note='the perturbative matching functions are arbitrary numbers')
def heavy_quark_expansion(v):
    """HQET form factors through first order in alpha_s and 1/m_b and second order in 1/m_c in terms of the subleading
    Isgur-Wise functions, and f+(0)=f0(0), T1(0)=T2(0), A0(0) ~ A12(0) with all corrections included"""
    mode = v.choice('mode', ['P', 'V'])
    par = Coefs(v)
    M, m = hq_masses(v, par, (pcln if mode == 'P' else cln).process_dict['B->D' + ('*' if mode == 'V' else '')], mode)
    c, e = heavy_quark(v, False)
    got = {}
    if mode == 'P':
        v.setattr(pcln, 'h_to_f', lambda mB, mP, h, q: got.update(h=h, mB=mB, mP=mP, q=q) or {})
    else:
        v.setattr(cln, 'h_to_A', lambda mB, mV, h, q: got.update(h=h, mB=mB, mP=mV, q=q) or {})
    w = v.real('w', dom=(1.01, 1.5))
    v.assume_(v.gt(w, 1))
    z = v.real('z', dom=(0, 0.06))
    v.setattr(common, 'z', lambda mB, mM, q2, t0=None: z)
    q2 = M**2 + m**2 - 2*M*m*w
    implementation('B->D%s CLN' % ('*' if mode == 'V' else ''), par, q2)
    h = got['h']
    v.ensure('masses and q2', v.and_(v.eq(got['mB'], M), v.eq(got['mP'], m), v.eq(got['q'], q2)))
    x1, x2 = 8*z + 16*z**2, 64*z**2
    chi2 = par['chi_2(1)'] + par['chi_2p(1)']*x1 + par['chi_2pp(1)']/2*x2
    chi3 = par['chi_3p(1)']*x1 + par['chi_3pp(1)']/2*x2
    eta = par['eta(1)'] + par['etap(1)']*x1 + par['etapp(1)']/2*x2
    L = {1: -4*(w - 1)*chi2 + 12*chi3, 2: -4*chi3, 3: 4*chi2, 4: 2*eta - 1, 5: -1, 6: -2*(1 + eta)/(w + 1)}
    # power corrections for the charm side: L_i/m_c plus l_i/m_c^2
    B = e['epsb']
    C = {i: e['epsc']*L[i] + e['epsc']**2*(par['CLN l_%d(1)' % i] + 8*z*par['CLN lp_%d(1)' % i]) for i in L}
    a = e['ash']
    xi = (1 - par['CLN rho2_xi']*(8*z + 16*z**2 + 24*z**3) + par['CLN c_xi']*(64*z**2 + 256*z**3) + par['CLN xi3']/6*512*z**3)
    u = (w - 1)/(w + 1)
    if mode == 'P':
        ref = {'h+': 1 + a*(c['CV1'] + (w + 1)/2*(c['CV2'] + c['CV3'])) + C[1] + B*L[1],
               'h-': a*(w + 1)/2*(c['CV2'] - c['CV3']) + C[4] - B*L[4],
               'hT': 1 + a*(c['CT1'] - c['CT2'] + c['CT3']) + C[1] - C[4] + B*(L[1] - L[4])}
    else:
        ref = {'V': 1 + a*c['CV1'] + C[2] - C[5] + B*(L[1] - L[4]),
               'A1': 1 + a*c['CA1'] + C[2] - C[5]*u + B*(L[1] - L[4]*u),
               'A2': a*c['CA2'] + C[3] + C[6],
               'A3': 1 + a*(c['CA1'] + c['CA3']) + C[2] - C[3] - C[5] + C[6] + B*(L[1] - L[4]),
               'T1': 1 + a*(c['CT1'] + (w - 1)/2*(c['CT2'] - c['CT3'])) + C[2] + B*L[1],
               'T2': a*(w + 1)/2*(c['CT2'] + c['CT3']) + C[5] - B*L[4],
               'T3': a*c['CT2'] + C[6] - C[3]}
    for k in ref:
        v.ensure('h_' + k, v.eq(h[k], xi*ref[k], tol=1e-7, scale=5))


@harness('C17', targets=[F_ + 'hqet.omega', F_ + 'hqet.r', F_ + 'hqet.omega_plus', F_ + 'hqet.omega_minus'], level='bounded', native_only=True, native_n=12,
         note='limit w -> 1 evaluated at w = 1 + 1e-6')
def matching_functions_continuous(v):
    """the loop functions r and omega are continuous at zero recoil and omega is symmetric under exchange of the quark masses"""
    z = v.real('z', dom=(0.2, 0.9))
    f = getattr(hqet.omega, '__wrapped__', hqet.omega)
    v.ensure('r', abs(hqet.r(1) - hqet.r(1 + 1e-6)) < 1e-5)
    v.ensure('omega', abs(f(1, z) - f(1 + 1e-6, z)) < 1e-3)
    w = v.real('w', dom=(1.05, 1.6))
    wz = (z + 1/z)/2
    if abs(w - wz) > 0.02:
        for C in ('CV1', 'CA1', 'CT1'):       # symmetric in m_b <-> m_c
            g = getattr(hqet, C)
            v.ensure(C + ' symmetric', abs(g(w, z) - g(w, 1/z)) < 1e-6*(1 + abs(g(w, z))))
        for C, D, s in (('CV2', 'CV3', 1), ('CA2', 'CA3', -1), ('CT2', 'CT3', -1)):
            v.ensure(C + ' and ' + D, abs(getattr(hqet, C)(w, 1/z) - s*getattr(hqet, D)(w, z)) < 1e-6*(1 + abs(getattr(hqet, D)(w, z))))


@harness('C17', targets=[F_ + 'hqet.' + k for k in ('CP', 'CV1', 'CV2', 'CV3', 'CA1', 'CA2', 'CA3', 'CT1', 'CT2', 'CT3')],
         uses=[F_ + 'hqet.omega', F_ + 'hqet.r'])
def matching_functions(v):
    """one-loop matching of the heavy-heavy currents: divergences of vector and axial current are the mass times the scalar and
    pseudoscalar current, exchanging the quarks exchanges the structures, and at zero recoil the known finite corrections result"""
    w, z = v.real('w', dom=(1.02, 1.5)), v.real('z', pos=True, dom=(0.2, 0.35))
    v.assume_(v.and_(v.ge(w, 1), v.gt(1, z), v.not_(v.eq(w, 1)), v.not_(v.eq(2*w*z, z*z + 1))))
    v.setattr(hqet, 'r', lambda w: v.uf('r', w, pos=True))
    v.setattr(hqet, 'omega', lambda w, z: v.uf('omega', w, z + 1/z))        # symmetric: matching_functions_continuous
    l, wz, n = v.flog(z), (z + 1/z)/2, v.num
    rw, om = hqet.r(w), hqet.omega(w, z)
    C = {k: getattr(hqet, k)(w, z) for k in ('CP', 'CV1', 'CV2', 'CV3', 'CA1', 'CA2', 'CA3', 'CT1', 'CT2', 'CT3')}
    den = 3*z*(w - wz)
    # mass renormalization between the pole masses and MSbar at mu^2 = mb mc
    P = C['CA1'] - (C['CA2']*(1 - z*w) + C['CA3']*(w - z))/(1 + z) + n('4/3') + l*(1 - z)/(1 + z)
    S = C['CV1'] + (C['CV2']*(1 - z*w) + C['CV3']*(w - z))/(1 - z) + n('4/3') + l*(1 + z)/(1 - z)
    v.ensure('axial divergence', v.eq(C['CP'], P, tol=1e-7, scale=5))
    v.ensure('pseudoscalar', v.eq(C['CP'], (2*z*(w - wz)*om - (w + 1)*(z - 1)**2*rw + (z*z - 1)*l)/den, tol=1e-7, scale=5))
    v.ensure('vector divergence', v.eq(S, (2*z*(w - wz)*om - (w - 1)*(z + 1)**2*rw + (z*z - 1)*l)/den, tol=1e-7, scale=5))
    v.ensure('tensor', v.eq(C['CT1'], ((w - 1)*((4*w + 2)*z - z*z - 1)*rw + 6*z*(wz - w) - (z*z - 1)*l + 2*z*(w - wz)*om)/den, tol=1e-7, scale=5))
    for k in ('CV1', 'CA1', 'CT1', 'CP'):
        v.ensure(k + ' symmetric', v.eq(getattr(hqet, k)(w, 1/z), C[k], tol=1e-7, scale=5))
    for a, b, s in (('CV2', 'CV3', 1), ('CA2', 'CA3', -1), ('CT2', 'CT3', -1)):
        v.ensure(a + ' and ' + b, v.eq(getattr(hqet, a)(w, 1/z), s*C[b], tol=1e-7, scale=5))


@harness('C17', targets=[F_ + 'hqet.' + k for k in ('CV1', 'CV2', 'CV3', 'CA1', 'omega', 'r')])
def matching_zero_recoil(v):
    """zero recoil: vector -2, axial -8/3 besides the common logarithm"""
    z = v.real('z', pos=True, dom=(0.2, 0.35))
    v.assume_(v.gt(1, z))
    phi = -(1 + z)/(1 - z)*v.flog(z)
    v.ensure('vector', v.eq(hqet.CV1(1, z) + hqet.CV2(1, z) + hqet.CV3(1, z), phi - 2, tol=1e-7, scale=5))
    v.ensure('axial', v.eq(hqet.CA1(1, z), phi - v.num('8/3'), tol=1e-7, scale=5))


@harness('C17', targets=[F_ + 'b_v.clnexp.ff', F_ + 'b_v.isgurwise.isgur_wise'], max_paths=60,
         note='pole masses are arbitrary (contract)')
def clnexp_relations(v):
    """CLN-like B -> D*: A0(0) ~ A12(0) and zero recoil relations hold for any parameters; tensor form factors follow from
    the equations of motion"""
    par = Coefs(v)
    M, m = hq_masses(v, par, clnexp.process_dict['B->D*'], 'V')
    mb, mc = v.real('mb', pos=True, dom=(4.5, 5)), v.real('mc', pos=True, dom=(1.3, 1.8))
    v.setattr(running, 'get_mb_pole', lambda par, **k: mb)
    v.setattr(running, 'get_mc_pole', lambda par, **k: mc)
    where = v.choice('q2', ['zero', 'zero recoil', 'general'])
    r = v.fsqrt(M*m)
    q2 = 0 if where == 'zero' else (M - m)**2 if where == 'zero recoil' else v.real('q2', dom=(0.1, 6))
    if where == 'general':
        v.assume_(v.gt((M - m)**2, q2))
        v.assume_(v.gt(q2, 0))
    f = implementation('B->D* CLNexp-IW', par, q2)
    at = {k: 1 + par['B->D* IW a_' + k] for k in ('T1', 'T2', 'T23')}
    if where == 'zero':
        v.ensure('A0(0) and A12(0)', v.eq(f['A0']*(M**2 - m**2), 8*M*m*f['A12'], tol=1e-8, scale=50))
        v.ensure('T23(0)', v.eq(f['T23']*(M - m)**2*(M + m), 4*(mb - mc)*(M**2 + m**2)*f['A12']*at['T23'], tol=1e-8, scale=500))
    else:
        lam = ((M - m)**2 - q2)*((M + m)**2 - q2)
        v.ensure('T23', v.eq(f['T23']*4*M*m*(M - m)*q2, (mb - mc)*(8*M*m*(M**2 - m**2)*f['A12'] - lam*f['A0'])*at['T23'], tol=1e-7, scale=500))
    v.ensure('T1', v.eq(f['T1']*(M + m), (mb + mc)*f['V']*at['T1'], tol=1e-8, scale=50))
    v.ensure('T2', v.eq(f['T2']*(M - m), (mb - mc)*f['A1']*at['T2'], tol=1e-8, scale=50))
    if where == 'zero recoil':
        v.ensure('A1 normalization', v.eq(f['A1']*(M + m), 2*r*par['B->D* CLN h_A1(1)'], tol=1e-8, scale=50))
        v.ensure('V normalization', v.eq(f['V']*2*r, (M + m)*par['B->D* CLN h_A1(1)']*par['B->D* CLN R_1(1)'], tol=1e-8, scale=50))
        v.ensure('A12 at zero recoil', v.eq(8*M*m*f['A12'], (M**2 - m**2)*f['A1'], tol=1e-8, scale=50))
    elif where == 'general':
        # ratios of form factors: R1, R2 expanded around zero recoil, R0 with the same shape
        w = (M**2 + m**2 - q2)/(2*M*m)
        x = w - 1
        k = 1 - q2/(M + m)**2
        v.ensure('R1', v.eq(f['V']*k, f['A1']*(par['B->D* CLN R_1(1)'] - 0.12*x + 0.05*x**2), tol=1e-8, scale=50))
        R2 = par['B->D* CLN R_2(1)'] + 0.11*x - 0.06*x**2
        lamk = ((M - m)**2 - q2)*((M + m)**2 - q2)
        v.ensure('R2', v.eq(k*(f['A1']*(M + m)**2*(M**2 - m**2 - q2) - 16*M*m**2*(M + m)*f['A12']), R2*f['A1']*lamk, tol=1e-7, scale=500))


# ------------------------------------------------------------------ baryons
@harness('C17', targets=[F_ + 'lambdab_12.sse.ff', F_ + 'lambdab_12.sse.zs', F_ + 'lambdab_12.sse.pole', F_ + 'lambdab_12.lambdab.ff_function'])
def lambdab_endpoint(v):
    """Lambda_b -> Lambda: axial and pseudotensor form factors coincide at zero recoil whatever the coefficients"""
    par = Coefs(v)
    M, m = masses(v, (0.8, 1.5), (5.3, 5.9))
    par['m_Lambdab'], par['m_Lambda'] = M, m
    par['m_B+'], par['m_K+'] = v.real('mB', pos=True, dom=(5.2, 5.4)), v.real('mK', pos=True, dom=(0.4, 0.6))
    v.assume_(v.gt(par['m_B+'] + par['m_K+'], M - m))
    name = v.choice('implementation', ['SSE2', 'SSE3'])
    f = implementation('Lambdab->Lambda ' + name, par, (M - m)**2)
    v.ensure('fAperp=fA0', v.eq(f['fAperp'], f['fA0'], tol=1e-8, scale=5))
    v.ensure('fT5perp=fT50', v.eq(f['fT5perp'], f['fT50'], tol=1e-8, scale=5))
    v.ensure('all form factors', set(f) == {'fA0', 'fAperp', 'fAt', 'fT0', 'fT50', 'fT5perp', 'fTperp', 'fV0', 'fVperp', 'fVt'})


@harness('C17', targets=[F_ + 'lambdab_32.LatticeQCD.ff_equiv', F_ + 'lambdab_32.LatticeQCD.formfactors', F_ + 'lambdab_32.LatticeQCD.omega_fct',
                         F_ + 'lambdab_32.LatticeQCD.ff_formula'])
def lambda1520_lattice(v):
    """Lambda_b -> Lambda(1520): lattice form factors are linear in the recoil w-1 and converted with the kinematic factors
    of the helicity basis"""
    par = Coefs(v)
    M, m = masses(v, (1.3, 1.7), (5.3, 5.9))
    par['m_Lambdab'], par['m_Lambda(1520)'] = M, m
    q2 = v.real('q2', dom=(10, 14))
    v.setattr(LatticeQCD, 'warnings', type('W', (), {'warn': staticmethod(lambda *a, **k: None)}))
    f = LatticeQCD.ff_equiv('Lambdab->Lambda(1520)', q2, par)
    x = ((M - m)**2 - q2)/(2*M*m)
    g = lambda k: par['Lambdab->Lambda(1520) %s F' % k] + par['Lambdab->Lambda(1520) %s A' % k]*x
    sp, sm = (M + m)**2 - q2, (M - m)**2 - q2
    for k, l, s in (('fVt', 'f0', sp), ('fV0', 'fplus', sm), ('fVperp', 'fperp', sm), ('fAt', 'g0', sm), ('fA0', 'gplus', sp), ('fAperp', 'gperp', sp),
                    ('fT0', 'hplus', sm), ('fTperp', 'hperp', sm), ('fT50', 'hTplus', sp), ('fT5perp', 'hTperp', sp)):
        v.ensure(k, v.eq(f[k]*s, m*g(l), tol=1e-8, scale=50))
    for k, l, s in (('fVg', 'fperpPrim', 1), ('fAg', 'gperpPrim', -1), ('fTg', 'hperpPrim', M + m), ('fT5g', 'hTperpPrim', m - M)):
        v.ensure(k, v.eq(f[k], s*g(l), tol=1e-8, scale=50))
    v.ensure('no timelike tensors', v.and_(v.eq(f['fTt'], 0), v.eq(f['fT5t'], 0)))


@harness('C17', targets=[F_ + 'lambdab_32.QuarkModel_MCN.ff_equiv', F_ + 'lambdab_32.QuarkModel_MCN.formfactors', F_ + 'lambdab_32.QuarkModel_MCN.F',
                         F_ + 'lambdab_32.QuarkModel_MCN.lambda_momentum'], max_paths=40)
def lambda1520_quark_model(v):
    """Lambda_b -> Lambda(1520) in the quark model: timelike and longitudinal form factors coincide at q^2=0, and so do the two
    tensor ones, for any quark model parameters; the nominal uncertainty factors scale the form factors"""
    par = Coefs(v)
    M, m = masses(v, (1.3, 1.7), (5.3, 5.9))
    par['m_Lambdab'], par['m_Lambda(1520)'] = M, m
    p = 'Lambdab->Lambda(1520) '
    for k in ('m_q', 'm_s', 'alpha_Lambdab', 'alpha_Lambda(1520)'):
        par[p + k] = v.real(k, pos=True, dom=(0.3, 0.6))
    H = {}
    if v.choice('what', ['kinematics', 'wave function']) == 'wave function':
        q2 = v.real('q2', dom=(0, 10))
        v.assume_(v.gt((M - m)**2, q2))
        ff, _, _ = QuarkModel_MCN.formfactors(p.strip(), par, q2)
        lam = ((M - m)**2 - q2)*((M + m)**2 - q2)
        pp = lam/(4*M**2)
        al = (par[p + 'alpha_Lambdab']**2 + par[p + 'alpha_Lambda(1520)']**2)/2
        g = v.fexp(-3*par[p + 'm_q']**2*pp/(2*(2*par[p + 'm_q'] + par[p + 'm_s'])**2*al))
        for k in ('F1', 'F2', 'F3', 'F4', 'G1', 'G2', 'G3', 'G4', 'H1', 'H2', 'H3', 'H4', 'H5', 'H6'):
            a = [par[p + '%s a%d' % (k, j)] for j in (0, 2, 4)]
            v.ensure(k, v.eq(ff[k], (a[0] + a[1]*pp + a[2]*pp**2)*g, tol=1e-7, scale=5))
        return
    for k in ('F1', 'F2', 'F3', 'F4', 'G1', 'G2', 'G3', 'G4', 'H1', 'H2', 'H3', 'H4', 'H5', 'H6'):
        H[k] = v.real(k, dom=COEF)
    v.setattr(QuarkModel_MCN, 'formfactors', lambda process, par, q2: (H, m, M))
    e = {}
    for k in ('Vt', 'Vperp', 'V0', 'Vg', 'At', 'Aperp', 'A0', 'Ag', 'Tt', 'Tperp', 'T0', 'Tg', 'T5t', 'T5perp', 'T50', 'T5g'):
        e[k] = par[p + 'f%s uncertainty' % k] = v.real('e' + k, pos=True, dom=(0.7, 1.3))
    f = QuarkModel_MCN.ff_equiv(p.strip(), 0, par)
    rel = lambda a, b, s, t, n: v.ensure(n, v.eq(f['f' + a]*e[b]*s, f['f' + b]*e[a]*t, tol=1e-7, scale=5))
    rel('Vt', 'V0', 1, 1, 'vector')
    rel('At', 'A0', 1, 1, 'axial')
    rel('Tperp', 'T5perp', 1, 1, 'tensor')
    rel('Tg', 'T5g', M + m, M - m, 'tensor, helicity 3/2')
    v.ensure('spin 3/2 vector', v.and_(v.eq(f['fVg'], H['F4']*e['Vg']), v.eq(f['fAg'], -H['G4']*e['Ag'])))
    v.ensure('no timelike tensors', v.and_(v.eq(f['fTt'], 0), v.eq(f['fT5t'], 0)))


# ---- Lambda_b -> Lambda(1520): the two decompositions of the matrix elements agree for every q^2 and every helicity
def helicity_structure(f, M, m, q2, k):
    """coefficients of p^a gamma^mu, p^a p^mu, p^a k^mu, g^{a mu} in the basis of arXiv:1903.00448; k: vector/tensor prefactors"""
    t, z, x, g = f
    sp, sm, D = (M + m)**2 - q2, (M - m)**2 - q2, M*M - m*m
    c = g*m/sm
    return [x + c, t*(M - m)/q2 + z*(1 - D/q2)/sp - x*2*m/sp + c*2*m/sp, -t*(M - m)/q2 + z*(1 + D/q2)/sp - x*2*M/sp + c*(2*M/sp - 2/m), g]


HK = ('F1', 'F2', 'F3', 'F4', 'G1', 'G2', 'G3', 'G4', 'H1', 'H2', 'H3', 'H4', 'H5', 'H6')
EK = ('Vt', 'Vperp', 'V0', 'Vg', 'At', 'Aperp', 'A0', 'Ag', 'Tt', 'Tperp', 'T0', 'Tg', 'T5t', 'T5perp', 'T50', 'T5g')


def lambda_kinematics(v):
    """Lambda_b at rest, daughter with E+p = a^2, E-p = b^2"""
    a, b, M = v.real('a', pos=True, dom=(1.4, 1.7)), v.real('b', pos=True, dom=(0.7, 1.1)), v.real('M', pos=True, dom=(5.3, 5.9))
    m, E = a*b, (a*a + b*b)/2
    v.assume_(v.and_(v.gt(a, b), v.gt(M, m)))
    q2 = M*M + m*m - 2*M*E
    v.assume_(q2 != 0)
    par = Coefs(v)
    par['m_Lambdab'], par['m_Lambda(1520)'] = M, m
    H = {k: v.real(k, dom=COEF) for k in HK}
    e = {}
    for k in EK:
        e[k] = par['Lambdab->Lambda(1520) f%s uncertainty' % k] = v.real('e' + k, pos=True, dom=(0.7, 1.3))
    v.setattr(QuarkModel_MCN, 'formfactors', lambda process, par, q2: (H, m, M))
    f = QuarkModel_MCN.ff_equiv('Lambdab->Lambda(1520)', q2, par)
    return a, b, M, m, E, q2, H, {k: f['f' + k]/e[k] for k in EK}


@harness('C17', targets=[F_ + 'lambdab_32.QuarkModel_MCN.ff_equiv'], time_limit=300)
def lambda1520_decomposition(v):
    """vector, axial and tensor current: the quark model decomposition equals the helicity decomposition, structure by structure"""
    a, b, M, m, E, q2, H, g = lambda_kinematics(v)
    V = helicity_structure((g['Vt'], g['V0']*(M + m), g['Vperp'], g['Vg']), M, m, q2, 1)
    A = helicity_structure((g['At'], g['A0']*(M - m), g['Aperp'], g['Ag']), M, -m, q2, 1)
    n = ('p gamma', 'p p', 'p k', 'g')
    den = (M, M*M, M*m, 1)
    for j in range(4):
        v.ensure('vector ' + n[j], v.eq(V[j]*den[j], H['F%d' % (j+1)], scale=20))
        v.ensure('axial ' + n[j], v.eq(A[j]*den[j], H['G%d' % (j+1)] if j == 0 else -H['G%d' % (j+1)], scale=20))
    T = tensor_structure(H, M, m, q2)
    F = helicity_structure((0, g['T0']*q2, g['Tperp']*(M + m), g['Tg']), M, m, q2, 1)
    for j in range(4):
        v.ensure('tensor ' + n[j], v.eq(-F[j], T[j], scale=20))


def tensor_structure(H, M, m, q2):
    """sigma^{mu nu} q_nu between spinors from the decomposition of arXiv:1108.6129, by the equations of motion"""
    h = [0] + [H['H%d' % j] for j in range(1, 7)]
    vq, wq = (M*M - m*m + q2)/(2*M), (M*M - m*m - q2)/(2*m)
    return [-(M + m)/M*h[1] - h[2]*vq/M - h[3]*wq/M - h[5], h[1]/M + h[2]*(M - m)/M**2 + h[4]*wq/M**2 - h[6]/M,
            h[1]/M + h[3]*(M - m)/M/m - h[4]*vq/M/m, h[5]*(M - m) + h[6]*vq]


@harness('C17', targets=[F_ + 'lambdab_32.QuarkModel_MCN.ff_equiv'], time_limit=300)
def lambda1520_dual_tensor(v):
    """axial tensor current: dual of the tensor current, for each helicity of the spin-3/2 baryon, with explicit spinors"""
    import numpy as np
    a, b, M, m, E, q2, H, g = lambda_kinematics(v)
    i = v.i()
    p = (a*a - b*b)/2
    low = (1, -1, -1, -1)
    h = [0] + [H['H%d' % j] for j in range(1, 7)]
    # chiral blocks: gamma^mu maps right to left by sigma^mu and left to right by sigmabar^mu
    sig = [[[1, 0], [0, 1]], [[0, 1], [1, 0]], [[0, -i], [i, 0]], [[1, 0], [0, -1]]]
    sg = lambda mu, up: [[x if mu == 0 or up else -x for x in r] for r in sig[mu]]

    def act(mu, w):          # gamma^mu on (left, right)
        L, R_ = w
        x, y = sg(mu, True), sg(mu, False)
        return ([x[0][0]*R_[0] + x[0][1]*R_[1], x[1][0]*R_[0] + x[1][1]*R_[1]], [y[0][0]*L[0] + y[0][1]*L[1], y[1][0]*L[0] + y[1][1]*L[1]])

    def inner(ub, w):        # ubar w, ub given as the conjugated spinor (left, right)
        return ub[0][0]*w[1][0] + ub[0][1]*w[1][1] + ub[1][0]*w[0][0] + ub[1][1]*w[0][1]

    def g5(w):
        return ([-x for x in w[0]], w[1])
    u = {1: ([1, 0], [1, 0]), -1: ([0, 1], [0, 1])}
    d = {1: ([b, 0], [a, 0]), -1: ([0, a], [0, b])}
    # conjugated Rarita-Schwinger spinors up to a common factor: vector index -> spinor
    ep = {1: (0, -1, i, 0), 0: (p/m, 0, 0, E/m)}
    rs = {3: [(1, 1, 1)], 1: [(0, 1, 2), (1, -1, 1)]}
    P, K = (M, 0, 0, 0), (E, 0, 0, p)
    Q = [x - y for x, y in zip(P, K)]
    lq = [x*y for x, y in zip(low, Q)]
    perm = [(0, 1, 2, 3), (0, 2, 3, 1), (0, 3, 1, 2)]
    eps = {}
    for w in perm:
        for (x, y, z, t), s in (((w[0], w[1], w[2], w[3]), 1), ((w[2], w[3], w[0], w[1]), 1)):
            eps[x, y] = (z, t, s)
            eps[y, x] = (z, t, -s)
    F = helicity_structure((0, g['T50']*q2, g['T5perp']*(M - m), g['T5g']), M, -m, q2, 1)
    for l, s in ((3, 1), (1, 1), (1, -1)):
        us = u[s]
        Ub = [([sum(c*ep[x][al]*d[y][0][0] for x, y, c in rs[l]), sum(c*ep[x][al]*d[y][0][1] for x, y, c in rs[l])],
               [sum(c*ep[x][al]*d[y][1][0] for x, y, c in rs[l]), sum(c*ep[x][al]*d[y][1][1] for x, y, c in rs[l])]) for al in range(4)]
        pa = ([M*x for x in Ub[0][0]], [M*x for x in Ub[0][1]])         # p_alpha ubar^alpha
        ga = [inner(pa, act(x, us))/M for x in range(4)]
        sc = inner(pa, us)/M
        gg = [[inner(Ub[x], act(y, us)) for y in range(4)] for x in range(4)]
        un = [inner(Ub[x], us) for x in range(4)]

        def T(x, y):
            r = 0
            if x == y:
                return r
            r = r - h[1]*inner(pa, act(x, act(y, us)))/M            # i sigma = -gamma gamma, antisymmetric
            r = r + h[2]*(P[x]*ga[y] - P[y]*ga[x])/M + h[3]*(K[x]*ga[y] - K[y]*ga[x])/m + h[4]*(P[x]*K[y] - P[y]*K[x])*sc/(M*m)
            return r + h[5]*(gg[x][y] - gg[y][x]) + h[6]*(un[x]*P[y] - un[y]*P[x])/M
        for mu in range(4):
            A = 0
            for nu in range(4):
                if (mu, nu) in eps:
                    x, y, sgn = eps[mu, nu]
                    A = A + i*sgn*low[x]*low[y]*T(x, y)*lq[nu]
            B = inner(pa, g5(act(mu, us)))*F[0] + (F[1]*P[mu] + F[2]*K[mu])*inner(pa, g5(us)) + F[3]*inner(Ub[mu], g5(us))
            v.ensure('helicity %d/2 from %d/2, component %d' % (l, s, mu), v.eq(A, -B, scale=200))


# ------------------------------------------------------------------ named parametrizations
def named():
    import re
    out = []
    for name in sorted(Implementation.instances):
        i = Implementation[name]
        m = re.match(r'(\d)-parameter', i.description or '')
        if m and 'form factor' in i.quantity:
            out.append((name, int(m.group(1))))
    return out


NAMED = named()


@harness('C17', targets=[F_ + 'b_p.btop.ff_function', F_ + 'b_v.btov.ff_function', F_ + 'lambdab_12.lambdab.ff_function'],
         max_paths=2000, note='every registered implementation described as N-parameter expansion')
def number_of_coefficients(v):
    """an N-parameter expansion reads the N lowest coefficients of every form factor and depends on all of them"""
    import re
    name, n = v.choice('implementation', NAMED)
    p = name.split()[0]
    par = Coefs(v)
    mods = {'BSZ': (bsz if p in bsz.process_dict else pbsz), 'BCL': bcl, 'SSE': sse}
    for k in (bsz, pbsz, bcl, bcl_lmvd, sse):
        for t in k.process_dict:
            pd = k.process_dict[t]
            for x in pd:
                if x != 'q' and pd[x] not in ('',):
                    par['m_' + pd[x]] = 5.28 if x == 'B' else 0.6
    for x, y in (('m_D0', 1.87), ('m_pi+', 0.14), ('m_K+', 0.5), ('m_Lambdab', 5.62), ('m_Lambda', 1.12), ('m_B+', 5.28),
                 ('B->pi BCL LMVD m_B+', 5.28), ('B->pi BCL LMVD m_pi0', 0.14)):
        par[x] = y
    if p.startswith('D->'):
        par['m_K+'] = 0.49
    if ('LMVD' in name and p not in bcl_lmvd.process_dict) or (p not in bsz.process_dict and p not in pbsz.process_dict
                                                               and p not in dff.bcl.process_dict and p not in lsse._process_dict) \
            or ('SSE' in name and p not in sse.process_dict and p not in lsse._process_dict):
        return
    implementation(name, par, 1.0)
    idx = set()
    for k in par.read:
        if k.startswith(p + ' ') and ('BCL a' in k or 'BSZ a' in k or 'SSE a' in k or ' IW' in k) and ' IW' not in k:
            j = re.findall(r'a(\d)', k)[-1] if not re.search(r'SSE \w+_a\d$', k) else k[-1]
            idx.add(int(j))
        m = re.match(r'.* BCL b_.\^(\d)$', k)
        if m and 'LMVD' in name and 'b_0' not in k:
            idx.add(int(m.group(1)))
            idx.add(0)
    v.ensure('coefficients of ' + name, idx == set(range(n)))
