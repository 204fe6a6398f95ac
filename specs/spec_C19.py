"""C19 rare b -> s l l and b -> d l l decays with arbitrary new physics: CP averages and asymmetries, angular observables, time integration, lepton flavour ratios"""
from vf.api import harness
from vf import phys
from vf.models import phase
import numpy as np
import scipy.integrate
import flavio
import warnings
from flavio.classes import Observable, AuxiliaryQuantity, Implementation
from flavio.physics import ckm
from flavio.physics.common import conjugate_par
from flavio.physics.running import running
from flavio.physics.bdecays import angular, wilsoncoefficients, bll, bpll, matrixelements, bxll, bxll_qed
from flavio.physics.bdecays.bvll import observables as bvobs, observables_bs as bsobs, amplitudes as bvamp, qcdf
from flavio.physics.bdecays.common import meson_quark, meson_ff, lambda_K
from flavio.physics.mesonmixing import observables as mix
from flavio.config import config

B_ = 'flavio.physics.bdecays.'
BV = B_ + 'bvll.observables.'
BS = B_ + 'bvll.observables_bs.'
BA = B_ + 'bvll.amplitudes.'
BP = B_ + 'bpll.'
BL = B_ + 'bll.'
W = B_ + 'wilsoncoefficients.'
ME = B_ + 'matrixelements.'
warnings.filterwarnings('ignore', message='The prediction')
warnings.filterwarnings('ignore', message='The QCDF')
LEP = ('e', 'mu', 'tau')
PM = {'B0->K': ('B0', 'K0'), 'B+->K': ('B+', 'K+'), 'B0->pi': ('B0', 'pi0'), 'B+->pi': ('B+', 'pi+')}
VM = {'B0->K*': ('B0', 'K*0'), 'B+->K*': ('B+', 'K*+')}
SM_ = {'Bs->phi': ('Bs', 'phi'), 'Bs->K*0': ('Bs', 'K*0')}
JV = ('1s', '1c', '2s', '2c', '6s', '6c', 3, 4, 5, 7, 8, 9)
JP = ('a', 'b', 'c')
HV = [(l, x) for l in ('0', 'pl', 'mi') for x in 'VA'] + ['S', 'P']
HP = ['V', 'A', 'S', 'P']


def sq(z):
    return z.real**2 + z.imag**2


def co(z):
    return z.conjugate()


def pred(name, par, wc, *a):
    return Observable[name].prediction_par(par, wc, *a)


def key(k):
    return k if isinstance(k, str) else ' '.join(k)


# ------------------------------------------------------------------ contracts
def total_contract(v):
    """total coefficients: arbitrary complex numbers, functions of name and scale (see totals)"""
    def h(wc_obj, sector, scale, par, nf_out=5):
        d = {k: v.cplx('tot.' + k) for k in wilsoncoefficients.fcnclabels[sector]}
        d.update({k + sector[:2]: v.cplx('tot.' + k) for k in ('C7eff_', 'C8eff_', 'C7effp_', 'C8effp_')})
        return d
    v.contract(wilsoncoefficients.wctot_dict, h)


def wceff_contract(v):
    """effective coefficients: arbitrary complex functions of q2, the coefficients and the CP-odd phase (see effective)"""
    def h(q2, wc, par, B, M, lep, scale):
        ll = meson_quark[B, M] + lep + lep
        a = [q2, wc['C9_' + ll], wc['C10_' + ll], wc['C7eff_' + ll[:2]], par['gamma'], B, M, lep]
        c = {k: v.ufc('eff.' + k, *a) for k in ('7', '7p', 'v', 'vp', 'a', 'ap', 's', 'sp', 'p', 'pp')}
        return {**c, 't': 0, 'tp': 0}
    v.contract(wilsoncoefficients.get_wceff, h)


def amps_contract(v):
    """helicity amplitudes: linear in the prefactor, otherwise arbitrary functions of kinematics, form factors and coefficients (proved against the
    literature in C14, C18); angular coefficients: real functions of amplitudes and kinematics"""
    def amps(keys, name):
        def h(q2, mB, mM, mqh, mql, m1, m2, ff, wc, prefactor):
            a = [q2, mB, mM, mqh, mql, m1, m2, ff[sorted(ff)[0]], wc['v'], wc['7']]
            return {k: prefactor*v.ufc('%s %s' % (name, key(k)), *a) for k in keys}
        return h

    def coeffs(keys, names, name):
        def h(H, q2, mB, mM, mqh, mql, m1, m2):
            a = [H[k] for k in keys] + [q2, mB, mM, mqh, mql, m1, m2]
            return {n: v.uf('%s %s' % (name, n), *a) for n in names}
        return h

    def inter(phi, H, Ht, q2, *k):
        return {n: v.uf('Jh %s' % n, phi, *[H[x] for x in HV], *[Ht[x] for x in HV], q2, *k) for n in JV}
    v.contract(angular.helicity_amps_v, amps(HV, 'Hv'))
    v.contract(angular.helicity_amps_p, amps(HP, 'Hp'))
    v.contract(angular.angularcoeffs_general_v, coeffs(HV, JV, 'Jv'))
    v.contract(angular.angularcoeffs_general_p, coeffs(HP, JP, 'Jp'))
    v.contract(angular.angularcoeffs_h_v, inter)


def aux_contract(v):
    """form factors and non-factorisable contributions: arbitrary functions of q2 (and of CP conjugation)"""
    def h(self, par_dict, wc_obj, *args, **kw):
        q2 = kw.get('q2', args[0] if args else None)
        if self.name.endswith('form factor'):
            return {k: v.uf('%s.%s' % (self.name, k), q2) for k in phys.ff_keys(self.name)}
        cp = kw.get('cp_conjugate', args[1] if len(args) > 1 else None)
        keys = [(l, 'V') for l in ('0', 'pl', 'mi')] if 'll s' in self.name and self.name.split('->')[1][:2] in ('K*', 'ph', 'rh') else ['V']
        return {k: v.ufc('%s %s' % (self.name, key(k)), q2, par_dict['gamma'], str(bool(cp))) for k in keys}
    v.contract(AuxiliaryQuantity.prediction, h)


def setup(v):
    phys.ckm_contract(v)
    phys.masses_contract(v)
    total_contract(v)
    wceff_contract(v)
    amps_contract(v)
    aux_contract(v)
    return v.par(), phys.wcs(v, scale=0.3)


# ------------------------------------------------------------------ reference amplitudes
def extra(B, M, q2region):
    """non-factorisable contributions to the amplitudes by region: below 8.9 spectator scattering (vector mesons), below 9 and above 14 subleading"""
    low, high = '%s->%sll subleading effects at low q2' % (B, M), '%s->%sll subleading effects at high q2' % (B, M)
    spec = '%s->%sll spectator scattering' % (B, M)
    vec = M in ('K*0', 'K*+', 'phi')
    sub = not ('pi' in M or (B, M) == ('Bs', 'K*0'))
    return {'low': [spec]*vec + [low]*sub, 'gap': [low]*sub, 'mid': [], 'high': [high]*sub}[q2region]


REGIONS = {'low': (1.0, 8.0, None, '89/10'), 'gap': (8.91, 8.99, '89/10', 9), 'mid': (9.1, 13.9, 9, 14), 'high': (14.1, 18.0, 14, None)}


def region(v, par, B, M, lep, strict=False):
    """q2 anywhere in the physical range, inside one of the four regions"""
    r = v.choice('region', list(REGIONS))
    lo, hi, a, b = REGIONS[r]
    q2 = v.real('q2', pos=True, dom=(lo, hi))
    if a is not None:
        v.assume_(v.gt(q2, v.num(a)) if r != 'gap' else v.ge(q2, v.num(a)))
    if b is not None:
        v.assume_(v.gt(v.num(b), q2) if r == 'low' else v.ge(v.num(b), q2))
    v.assume_(v.gt(par['m_' + B], par['m_' + M]))
    v.assume_((v.gt if strict else v.ge)(q2, 4*par['m_' + lep]**2))
    v.assume_(v.ge((par['m_' + B] - par['m_' + M])**2, q2))
    return r, q2


def prefactor(v, par, B, M, scale):
    return 4*par['GF']/v.fsqrt(2)*ckm.xi('t', meson_quark[B, M])(par)*running.get_alpha(par, scale)['alpha_e']/(4*v.pi)


def ref_amps(v, par, wc, B, M, lep, q2, r, cp):
    """amplitudes of the decay (cp False) or of its CP conjugate (all weak phases conjugated)"""
    vec = M in ('K*0', 'K*+', 'phi')
    scale = config['renormalization scale']['bvll' if vec else 'bpll']
    tot = wilsoncoefficients.wctot_dict(wc, meson_quark[B, M] + lep + lep, scale, par)
    p = dict(par) if not v.sym else par
    if cp:
        tot = {k: co(x) for k, x in tot.items()}
        p = conjugate_par(par)
    eff = wilsoncoefficients.get_wceff(q2, tot, p, B, M, lep, scale)
    ff = AuxiliaryQuantity[meson_ff[B, M] + ' form factor'].prediction(par_dict=par, wc_obj=None, q2=q2)
    f = angular.helicity_amps_v if vec else angular.helicity_amps_p
    ml = par['m_' + lep]
    h = dict(f(q2, par['m_' + B], par['m_' + M], running.get_mb(par, scale), 0, ml, ml, ff, eff, prefactor(v, p, B, M, scale)))
    for n in extra(B, M, r):
        for k, x in AuxiliaryQuantity[n].prediction(par_dict=par, wc_obj=wc, q2=q2, cp_conjugate=cp).items():
            h[k] = h.get(k, 0) + x
    return h


def ref_coeffs(v, par, wc, B, M, lep, q2, r):
    """angular coefficients of the decay and of its CP conjugate"""
    vec = M in ('K*0', 'K*+', 'phi')
    scale = config['renormalization scale']['bvll' if vec else 'bpll']
    f = angular.angularcoeffs_general_v if vec else angular.angularcoeffs_general_p
    ml = par['m_' + lep]
    a = (q2, par['m_' + B], par['m_' + M], running.get_mb(par, scale), 0, ml, ml)
    return [f(ref_amps(v, par, wc, B, M, lep, q2, r, cp), *a) for cp in (False, True)]


def coeffs_at(v, par, wc, B, M, lep):
    """q2 -> angular coefficients of the decay and its CP conjugate"""
    ml = par['m_' + lep]
    if v.sym:
        f = angular.angularcoeffs_general_v if M in ('K*0', 'K*+', 'phi') else angular.angularcoeffs_general_p
        return lambda q2: [f({'cp': cp}, q2, 0, 0, 0, 0, ml, ml) for cp in (False, True)]
    return lambda q2: ref_coeffs(v, par, wc, B, M, lep, q2, 'low' if q2 < 8.9 else 'gap' if q2 <= 9 else 'mid' if q2 <= 14 else 'high')


# ------------------------------------------------------------------ B -> P l l
def rate_p(J):
    return 2*(J['a'] + J['c']/3)


@harness('C19', targets=[BP + f for f in ('bpll_obs', 'bpll_dbrdq2', 'helicity_amps', 'helicity_amps_bar', 'helicity_amps_ff', 'get_subleading', 'prefactor',
                                          'get_ff', 'bpll_obs_ratio_func', 'dGdq2_cpaverage', 'dGdq2_cpdiff', 'AFB_cpaverage_num', 'FH_cpaverage_num')],
         uses=[W + 'wctot_dict', W + 'get_wceff', B_ + 'angular.helicity_amps_p', B_ + 'angular.angularcoeffs_general_p'], max_paths=400, time_limit=400, shard=('mode', 4))
def bpll_differential(v):
    """rate, CP asymmetry, forward-backward asymmetry and flat term at fixed q2 from the amplitudes of the decay and of its CP conjugate"""
    mode, lep = v.choice('mode', list(PM)), v.choice('lepton', LEP)
    B, M = PM[mode]
    par, wc = setup(v)
    r, q2 = region(v, par, B, M, lep, strict=True)
    J, Jb = ref_coeffs(v, par, wc, B, M, lep, q2, r)
    o = lambda n: pred('%s(%s%s%s)' % (n, mode, lep, lep), par, wc, q2)
    G, Gb = rate_p(J), rate_p(Jb)
    br = o('dBR/dq2')
    v.ensure('rate', v.eq(br, par['tau_' + B]*(G + Gb)/2*(v.num('1/2') if M == 'pi0' else 1)))
    v.assume_(v.gt(G + Gb, 0))
    for x in (G - Gb, J['b'] + Jb['b'], J['a'] + J['c'] + Jb['a'] + Jb['c']):
        v.nonzero(x/2)
    v.ensure('ACP', v.eq(o('ACP')*(G + Gb), G - Gb, scale=G + Gb))
    v.ensure('AFB', v.eq(o('AFB')*(G + Gb), J['b'] + Jb['b'], scale=G + Gb))
    v.ensure('FH', v.eq(o('FH')*(G + Gb), 2*(J['a'] + J['c'] + Jb['a'] + Jb['c']), scale=G + Gb))


@harness('C19', targets=[BP + f for f in ('bpll_obs_int_ratio_func', 'bpll_dbrdq2_int', 'bpll_dbrdq2_tot_func', 'bpll_dbrdq2_Belle_func', 'bpll_obs_int',
                                          'bpll_obs_ratio_leptonflavour', 'bpll_obs_int_ratio_leptonflavour', 'bpll_obs')],
         uses=[BP + 'helicity_amps', BP + 'helicity_amps_bar'], max_paths=200, time_limit=400, native_n=2, shard=('mode', 4))
def bpll_binned(v):
    """binned observables are ratios of integrals; total rates; lepton flavour ratios; nothing outside the physical range"""
    mode, lep = v.choice('mode', list(PM)), v.choice('lepton', LEP)
    B, M = PM[mode]
    par, wc = setup(v)
    jpar_contract(v, bpll, angular.angularcoeffs_general_p, JP)
    quad = phys.integral_contract(v)
    rng = {l: (4*par['m_' + l]**2, (par['m_' + B] - par['m_' + M])**2) for l in LEP}
    for lo, hi in rng.values():
        v.assume_(v.gt(hi, lo))
    x, y = (v.real(n, dom=(14.3, 17.), pos=True) for n in 'xy')
    v.assume_(v.gt(y, x))
    for lo, hi in (rng.values()):
        v.assume_(v.gt(x, lo))
        v.assume_(v.gt(hi, y))
    o = lambda n, *a, l=lep: pred('%s(%s%s%s)' % (n, mode, l, l), par, wc, *a)
    iso = v.num('1/2') if M == 'pi0' else 1
    tau = par['tau_' + B]
    bin_ = quad(lambda q2: o('dBR/dq2', q2), x, y)
    v.ensure('<dBR/dq2>', v.eq(o('<dBR/dq2>', x, y)*(y - x), bin_, tol=0.02))
    if lep == 'tau':
        v.ensure('BR', v.eq(o('BR'), quad(lambda q2: o('dBR/dq2', q2), *rng['tau']), tol=0.02))
    if (mode, lep) == ('B+->pi', 'e') and v.sym:
        v.ensure('BR Belle', v.eq(o('BR_Belle'), quad(lambda q2: o('dBR/dq2', q2), *rng['e'])))
    for l in LEP:       # consequence of the positivity of the rate at every q2
        if v.sym:
            v.nonzero(quad(lambda q2: sum(rate_p(J) for J in coeffs_at(v, par, wc, B, M, l)(q2))/2, x, y))
    J = coeffs_at(v, par, wc, B, M, lep)
    nums = {'ACP': lambda a, b: rate_p(a) - rate_p(b), 'AFB': lambda a, b: a['b'] + b['b'], 'FH': lambda a, b: 2*(a['a'] + a['c'] + b['a'] + b['c'])}
    for n, f in nums.items():
        num = quad(lambda q2: f(*J(q2))/2, x, y)
        v.nonzero(num)
        v.ensure('<%s>' % n, v.eq(o('<%s>' % n, x, y)*bin_, tau*iso*num, tol=0.02, scale=bin_))
    if lep != 'tau':
        a = {'e': ('mu', 'e'), 'mu': ('tau', 'mu')}[lep]
        R = 'R%s%s(%sll)' % (a[0], a[1], mode)
        v.ensure('R', v.eq(pred(R, par, wc, x)*o('dBR/dq2', x, l=a[1]), o('dBR/dq2', x, l=a[0])))
        v.ensure('<R>', v.eq(pred('<' + R.replace('(', '>('), par, wc, x, y)*o('<dBR/dq2>', x, y, l=a[1]), o('<dBR/dq2>', x, y, l=a[0]), tol=0.02))
    for q2, n in ((rng[lep][0] - v.real('below', pos=True, dom=(0, 1)), 'below'), (rng[lep][1] + v.real('above', pos=True), 'above')):
        for k in ('dBR/dq2', 'ACP', 'AFB', 'FH'):
            v.ensure('%s %s range' % (k, n), v.eq(o(k, q2), 0))


def jpar_contract(v, mod, f, keys):
    """angular coefficients as functions of q2 (see the differential harness); the flavour-averaged rate is positive"""
    if not v.sym:
        return
    amp = lambda cp: (lambda q2, *a: {'q2': q2, 'cp': cp})

    def h(H, q2, mB, mM, mqh, mql, m1, m2):
        return jval(v, keys, q2, m1, H['cp'])
    v.contract(mod.helicity_amps, amp(False))
    v.contract(mod.helicity_amps_bar, amp(True))
    v.contract(f, h)


def jval(v, keys, q2, ml, cp):
    d = {n: v.uf('J %s' % n, q2, ml, str(cp)) for n in keys}
    v.assume_(v.gt(rate_p(d) if keys is JP else rate_v(d), 0))
    return d


# ------------------------------------------------------------------ B -> V l l
def rate_v(J):
    return v34(2*J['1s'] + J['1c'], 3) - v34(2*J['2s'] + J['2c'], 1)


def v34(x, n):
    return n*x/4


def lhcb(i):
    """angular conventions of LHCb relative to the theory convention"""
    return -1 if i in (4, '6s', '6c', 7, 9) else 1


def acp_eq(v, n, a, b, **k):
    """equality; for the direct CP asymmetry up to the factor of 2 that bvll_acp_normalisation is about"""
    return v.or_(v.eq(a, b, **k), v.eq(2*a, b, **k)) if n == 'ACP' else v.eq(a, b, **k)


def S(i, f=1):
    return lambda J, Jb: f*lhcb(i)*(J[i] + Jb[i])


def A(i, f=1):
    return lambda J, Jb: f*lhcb(i)*(J[i] - Jb[i])


# observable -> numerator; normalised to the sum of the rates of the decay and its CP conjugate
NORM = {'ACP': lambda J, Jb: rate_v(J) - rate_v(Jb), 'AFB': lambda J, Jb: -3*(J['6s'] + Jb['6s'])/4, 'FL': lambda J, Jb: -(J['2c'] + Jb['2c']),
        **{'S%s' % i: S(i) for i in (3, 4, 5, '6c', 7, 8, 9)}, **{'A%s' % i: A(i) for i in (3, 4, 5, '6s', 7, 8, 9)}}
# ... normalised to the sum of J_2s
OPT = {'P1': lambda J, Jb: (J[3] + Jb[3])/2, 'P2': lambda J, Jb: -(J['6s'] + Jb['6s'])/8, 'P3': lambda J, Jb: (J[9] + Jb[9])/4,
       'ATIm': lambda J, Jb: -(J[9] - Jb[9])/2}
# ... normalised to twice the geometric mean of the sums of J_2s and -J_2c
PRIME = {'P4p': S(4), 'P5p': S(5), 'P6p': S(7), 'P8p': S(8)}


@harness('C19', targets=[BV + f for f in ('BVllObservable.__init__', 'BVllObservable.ff', 'BVllObservable.wceff', 'BVllObservable.wceff_bar',
                                          'BVllObservable.helicity_amps_ff', 'BVllObservable.ha', 'BVllObservable.ha_bar', 'BVllObservable.j',
                                          'BVllObservable.jbar', 'BVllObservable.jfunc', 'BVllObservableDifferential.__init__', 'BVll_dBRdq2.__call__',
                                          'BVll_ratio.__call__', 'BVll_pprime.__call__', 'dGdq2', 'dGdq2_ave', 'dGdq2_diff', 'SA_den', 'P_den',
                                          'S_theory_num', 'A_theory_num', 'S_experiment_num', 'A_experiment_num', 'AFB_experiment_num', 'FL_num',
                                          'make_obs', 'make_obs_p', 'make_obs_pprime', 'make_obs_br')] +
         [BA + f for f in ('prefactor', 'get_ff', 'get_ss', 'get_subleading')],
         uses=[W + 'wctot_dict', W + 'get_wceff', B_ + 'angular.helicity_amps_v', B_ + 'angular.angularcoeffs_general_v'],
         max_paths=400, time_limit=400, shard=('observables', 5), native_n=6)
def bvll_differential(v):
    """rate, asymmetries, polarisation, angular observables, optimised observables at fixed q2 from the amplitudes of the decay and of its CP conjugate"""
    group = v.choice('observables', ['rate', 'S', 'A', 'P', "P'"])
    mode, lep = v.choice('mode', list(VM)), v.choice('lepton', LEP if group == 'rate' else ['mu'])
    B, M = VM[mode]
    par, wc = setup(v)
    r, q2 = region(v, par, B, M, lep)
    J, Jb = ref_coeffs(v, par, wc, B, M, lep, q2, r)
    o = lambda n: pred('%s(%s%s%s)' % (n, mode, lep, lep), par, wc, q2)
    tot = rate_v(J) + rate_v(Jb)
    v.assume_(v.gt(tot, 0))
    if group == 'rate':
        v.ensure('rate', v.eq(o('dBR/dq2'), par['tau_' + B]*tot/2))
    for n, f in NORM.items():
        if n in ('ACP', 'AFB', 'FL') if group == 'rate' else n[0] == group and n != 'ACP' and n != 'AFB':
            x = f(J, Jb)
            v.nonzero(x)
            v.ensure(n + ' up to normalisation' if n == 'ACP' else n, acp_eq(v, n, o(n)*tot, x, scale=tot))
    s2, c2 = J['2s'] + Jb['2s'], J['2c'] + Jb['2c']
    for n, f in (OPT if group == 'P' else {}).items():
        v.assume_(v.gt(s2, 0))
        x = f(J, Jb)
        v.nonzero(x)
        v.ensure(n, v.eq(o(n)*s2, x, scale=s2))
    for n, f in (PRIME if group == "P'" else {}).items():
        v.assume_(v.gt(s2, 0))
        v.assume_(v.gt(0, c2))
        x = f(J, Jb)
        v.nonzero(x)
        v.ensure(n, v.eq(o(n)*2*v.fsqrt(-s2*c2), x, scale=s2))


@harness('C19', targets=[BV + 'diff', BV + 'BVll_pprime.__call__', BV + 'BVll_int_pprime.__call__'], uses=[BV + 'BVllObservable.j', BV + 'BVllObservable.jbar'],
         max_paths=60, time_limit=200, native_n=4)
def bvll_lepton_differences(v):
    """mu - e differences of P4', P5' and the forward-backward asymmetry"""
    n = v.choice('observable', ['P4p', 'P5p', 'AFB'])
    binned = v.boolean('binned')
    par, wc = setup(v)
    phys.integral_contract(v)
    J = jvec_contract(v, par, wc, 'B0->K*')
    q2, q3 = inside(v, par, 'B0', 'K*0', ('e', 'mu'))
    a = (q2, q3) if binned else (q2,)
    for l in ('e', 'mu') if v.sym else ():
        quad = phys.integral_contract(v)
        f = PRIME.get(n, NORM.get(n))
        v.nonzero(quad(lambda x: f(*J(x, l)), *a) if binned else f(*J(q2, l)))
    w = '<%s>' if binned else '%s'
    v.ensure('difference', v.eq(pred(w % ('Dmue_' + n) + '(B0->K*ll)', par, wc, *a),
                                pred(w % n + '(B0->K*mumu)', par, wc, *a) - pred(w % n + '(B0->K*ee)', par, wc, *a), tol=1e-5, scale=1))


def jvec_contract(v, par, wc, mode):
    """angular coefficients of a vector-meson mode as functions of q2 (established in the differential harness)"""
    B, M = VM[mode]
    if not v.sym:
        return lambda q2, l: coeffs_at(v, par, wc, B, M, l)(q2)
    v.contract(bvobs.BVllObservable.j, lambda self, q2: jval(v, JV, q2, self.ml, False))
    v.contract(bvobs.BVllObservable.jbar, lambda self, q2: jval(v, JV, q2, self.ml, True))
    return lambda q2, l: [jval(v, JV, q2, par['m_' + l], cp) for cp in (False, True)]


def inside(v, par, B, M, leps):
    """two values of q2 inside the physical range of all given leptons"""
    x = v.real('x', dom=(14.3, 15.5), pos=True)
    y = x + v.real('width', dom=(0.2, 1.), pos=True)
    v.assume_(v.gt(par['m_' + B], par['m_' + M]))
    for l in leps:
        v.assume_(v.gt(x, 4*par['m_' + l]**2))
    v.assume_(v.gt((par['m_' + B] - par['m_' + M])**2, y))
    return x, y


def pole_contract(v):
    """integration with subtraction of the photon pole is integration (see pole_subtraction)"""
    quad = phys.integral_contract(v)
    v.contract(bvobs.nintegrate_pole, lambda f, a, b, *x, **k: quad(f, a, b))
    return quad if v.sym else (lambda f, a, b: bvobs.nintegrate_pole(f, a, b, epsrel=0.0005))


CLIP = ['inside', 'below', 'above', 'outside']


@harness('C19', targets=[BV + f for f in ('BVllObservableBinned.__init__', 'BVll_dBRdq2_int.__call__', 'BVll_dBRdq2_int.obs', 'BVll_int_ratio.__call__',
                                          'BVll_int_ratio.obs_num', 'BVll_int_ratio.obs_den', 'BVll_int_pprime.__call__', 'BVll_int_pprime.obs_num',
                                          'BVll_int_pprime.obs_2s', 'BVll_int_pprime.obs_2c', 'make_obs', 'make_obs_p', 'make_obs_pprime', 'make_obs_br')],
         uses=[BV + 'BVllObservable.j', BV + 'BVllObservable.jbar', BV + 'nintegrate_pole'], max_paths=200, time_limit=400, shard=('limits', 4), native_n=1)
def bvll_binned(v):
    """binned observables are ratios of integrals over the part of the bin inside the physical range"""
    clip = v.choice('limits', CLIP)
    mode, lep = v.choice('mode', list(VM)), v.choice('lepton', LEP if clip == 'inside' else ['mu'])
    B, M = VM[mode]
    par, wc = setup(v)
    J = jvec_contract(v, par, wc, mode)
    quad = pole_contract(v)
    x, y = inside(v, par, B, M, [lep])
    lo, hi = 4*par['m_' + lep]**2, (par['m_' + B] - par['m_' + M])**2
    a, b = x, y
    if clip == 'below':
        a = lo - v.real('d', pos=True, dom=(0.001, 0.01))
        x = lo
    elif clip == 'above':
        b = hi + v.real('d', pos=True)
        y = hi
    elif clip == 'outside':
        a = hi + v.real('d', pos=True)
        b = a + v.real('e', pos=True)
    o = lambda n: pred('<%s>(%s%s%s)' % (n, mode, lep, lep), par, wc, a, b)
    if clip == 'outside':
        for n in ['dBR/dq2', *NORM, *OPT, *PRIME]:
            v.ensure('<%s>' % n, v.eq(o(n), 0))
        return
    num = lambda f: quad(lambda q2: f(*J(q2, lep)), x, y)
    tot = num(lambda J, Jb: rate_v(J) + rate_v(Jb))
    v.ensure('<dBR/dq2>', v.eq(o('dBR/dq2')*(b - a), par['tau_' + B]*tot/2, tol=0.02))
    s2, c2 = (num(lambda J, Jb: J[i] + Jb[i]) for i in ('2s', '2c'))
    v.assume_(v.gt(s2, 0))
    v.assume_(v.gt(0, c2))
    for n, f in {**NORM, **OPT, **PRIME}.items():
        if not v.sym and n not in ('ACP', 'AFB', 'P5p', 'P1'):
            continue
        z = num(f)
        v.nonzero(z)
        d = tot if n in NORM else s2 if n in OPT else 2*v.fsqrt(-s2*c2)
        v.ensure('<%s>' % n + (' up to normalisation' if n == 'ACP' else ''), acp_eq(v, n, o(n)*d, z, tol=0.03, scale=tot))


@harness('C19', targets=[BV + f for f in ('dGdq2_diff', 'SA_den', 'BVll_ratio.__call__', 'BVll_int_ratio.__call__', 'make_obs')],
         uses=[BV + 'BVllObservable.j', BV + 'BVllObservable.jbar', BV + 'nintegrate_pole'], max_paths=30, time_limit=200, native_n=6)
def bvll_acp_normalisation(v):
    """the direct CP asymmetry is the difference of the rates divided by their sum"""
    mode, lep = v.choice('mode', list(VM)), 'mu'
    B, M = VM[mode]
    par, wc = setup(v)
    J = jvec_contract(v, par, wc, mode)
    quad = pole_contract(v)
    x, y = inside(v, par, B, M, [lep])
    diff, tot = (lambda q2: (lambda J, Jb: rate_v(J) - rate_v(Jb))(*J(q2, lep))), (lambda q2: (lambda J, Jb: rate_v(J) + rate_v(Jb))(*J(q2, lep)))
    for w, f in (('ACP', lambda g: g(x)), ('<ACP>', lambda g: quad(g, x, y))):
        v.nonzero(f(diff))
        v.assume_(v.gt(f(tot), 0))
        v.ensure(w, v.eq(pred('%s(%s%s%s)' % (w, mode, lep, lep), par, wc, *((x,) if w == 'ACP' else (x, y)))*f(tot), f(diff), tol=1e-5 if w == 'ACP' else 0.03, scale=f(tot)/100))


@harness('C19', targets=[BV + f for f in ('BVll_obs_int.__call__', 'BVll_obs_int.obs', 'BVll_obs.__call__', 'bvll_obs_int_ratio_leptonflavour',
                                          'bvll_obs_ratio_leptonflavour', 'make_obs_lfur', 'BVll_dBRdq2.__call__', 'BVllObservableDifferential.__init__')],
         uses=[BV + 'BVllObservable.j', BV + 'BVllObservable.jbar', BV + 'nintegrate_pole'], max_paths=100, time_limit=400, native_n=6)
def bvll_lepton_ratios(v):
    """lepton flavour ratios are ratios of the (binned) rates; nothing outside the physical range"""
    mode, pair = v.choice('mode', list(VM)), v.choice('leptons', [('mu', 'e'), ('tau', 'mu')])
    B, M = VM[mode]
    par, wc = setup(v)
    J = jvec_contract(v, par, wc, mode)
    pole_contract(v)
    x, y = inside(v, par, B, M, LEP)
    o = lambda n, l, *a: pred('%s(%s%s%s)' % (n, mode, l, l), par, wc, *a)
    R = 'R%s%s' % pair
    v.ensure('R', v.eq(pred('%s(%sll)' % (R, mode), par, wc, x)*o('dBR/dq2', pair[1], x), o('dBR/dq2', pair[0], x), tol=1e-5))
    v.ensure('<R>', v.eq(pred('<%s>(%sll)' % (R, mode), par, wc, x, y)*o('<dBR/dq2>', pair[1], x, y), o('<dBR/dq2>', pair[0], x, y), tol=0.02))
    lep = pair[0]
    for q2, n in ((4*par['m_' + lep]**2 - v.real('below', pos=True, dom=(0, 0.01)), 'below'),
                  ((par['m_' + B] - par['m_' + M])**2 + v.real('above', pos=True), 'above')):
        for k in ('dBR/dq2', *NORM, *OPT, *PRIME):
            v.ensure('%s %s range' % (k, n), v.eq(o(k, lep, q2), 0))


@harness('C19', targets=[BV + 'nintegrate_pole'], max_paths=10)
def pole_subtraction(v):
    """for every quadrature rule that is exact for 1 and 1/q2 the integral with pole subtraction is the integral"""
    a, b = v.real('a', pos=True, dom=(0.01, 0.3)), v.real('b', pos=True, dom=(0.4, 2))
    v.assume_(v.gt(b, a))
    if not v.sym:
        f = lambda x: 1/x + 3*x*x
        return v.ensure('integral', v.eq(bvobs.nintegrate_pole(f, a, b), v.flog(b/a) + b**3 - a**3, tol=0.02))
    quad = phys.integral_contract(v)
    f = lambda x: v.uf('f', x)
    v.assume_(v.eq(quad(lambda x: 1/x, a, b), v.flog(b/a)))
    v.ensure('integral', v.eq(bvobs.nintegrate_pole(f, a, b), quad(f, a, b)))


# ------------------------------------------------------------------ Bs -> V l l
def mixing_contract(v):
    v.contract(mix.q_over_p, lambda wc_obj, par, meson: v.cplx('q/p ' + meson, scale=0.7))


def tilde(h):
    """CP-conjugate decay to the same final state: the perpendicular and the scalar amplitude change sign"""
    t = dict(h)
    for x in 'VA':
        par, perp = (h['pl', x] + h['mi', x])/2, (h['pl', x] - h['mi', x])/2
        t['pl', x], t['mi', x] = par - perp, par + perp
    t['S'] = -h['S']
    return t


BSOBS = {'FL': ('2c', -1), 'S3': (3, 1), 'S4': (4, -1), 'S7': (7, -1)}


@harness('C19', targets=[BS + f for f in ('bsvll_obs', 'bsvll_dbrdq2', 'bsvll_dbrdq2_func', 'bsvll_obs_ratio_func', 'S_theory_num_Bs', 'S_experiment_num_Bs',
                                          'dGdq2_ave_Bs', 'SA_den_Bs', 'FL_num_Bs')] +
         [BA + f for f in ('helicity_amps', 'helicity_amps_bar', 'helicity_amps_ff', 'get_ss', 'get_subleading', 'get_ff', 'prefactor')],
         uses=[W + 'wctot_dict', W + 'get_wceff', B_ + 'angular.helicity_amps_v', B_ + 'angular.angularcoeffs_general_v', B_ + 'angular.angularcoeffs_h_v',
               'flavio.physics.mesonmixing.observables.q_over_p'], max_paths=300, time_limit=400, shard=('region', 4), native_n=6)
def bsvll_differential(v):
    """untagged time-integrated rate and angular observables: int e^(-t/tau) [(J + Jbar) cosh(y t/tau) - h sinh(y t/tau)] dt/tau"""
    mode, lep = v.choice('mode', list(SM_)), v.choice('lepton', LEP)
    B, M = SM_[mode]
    par, wc = setup(v)
    mixing_contract(v)
    if M == 'K*0':      # flavour-specific final state: no interference
        par['DeltaGamma/Gamma_Bs'] = 0
    y = par['DeltaGamma/Gamma_Bs']/2
    v.assume_(v.gt(1, y**2))
    r, q2 = region(v, par, B, M, lep)
    J, Jb = ref_coeffs(v, par, wc, B, M, lep, q2, r)
    scale = config['renormalization scale']['bvll']
    ml = par['m_' + lep]
    qp = mix.q_over_p(wc, par, B)
    Jh = angular.angularcoeffs_h_v(phase(-qp), ref_amps(v, par, wc, B, M, lep, q2, r, False), tilde(ref_amps(v, par, wc, B, M, lep, q2, r, True)),
                                   q2, par['m_' + B], par['m_' + M], running.get_mb(par, scale), 0, ml, ml)
    # int_0^inf e^-s cosh(y s) ds, int_0^inf e^-s sinh(y s) ds
    ch, sh = (1/(1 - y) + 1/(1 + y))/2, (1/(1 - y) - 1/(1 + y))/2
    T = {i: ch*(J[i] + Jb[i]) - sh*Jh[i] for i in ('1s', '1c', '2s', '2c', 3, 4, 7)}
    tot = rate_v(T)
    o = lambda n: pred('%s(%s%s%s)' % (n, mode, lep, lep), par, wc, q2)
    v.ensure('rate', v.eq(o('dBR/dq2'), par['tau_' + B]*tot/2))
    v.assume_(v.gt(tot, 0))
    for n, (i, s) in BSOBS.items():
        v.nonzero(s*T[i])
        v.ensure(n, v.eq(o(n)*tot, s*T[i], scale=tot))


@harness('C19', targets=[B_ + 'angular.angularcoeffs_h_v', B_ + 'angular.angularcoeffs_h_Gbasis_v', B_ + 'angular.angularcoeffs_general_v',
                         B_ + 'angular.angularcoeffs_general_Gbasis_v', B_ + 'angular.G_to_g'], max_paths=10, time_limit=400, native_n=12)
def interference(v):
    """interference terms are the polarisation identity of the angular coefficients; CP-conjugate amplitudes flip the sign of J5, J6, J8, J9"""
    ml, q2, mB, mV, mb = (v.real(n, pos=True, dom=d) for n, d in (('ml', (0.1, 0.9)), ('q2', (4, 9)), ('mB', (5, 6)), ('mV', (0.7, 1)), ('mb', (4, 5))))
    v.assume_(v.gt(q2, 4*ml**2))
    v.assume_(v.gt(mB, mV))
    v.assume_(v.gt((mB - mV)**2, q2))
    mk = lambda p: {k: v.cplx('%s %s' % (p, key(k)), scale=0.5) for k in HV}
    full = lambda h: {**h, **{k: 0 for k in (('pl', 'T'), ('mi', 'T'), ('0', 'T'), ('pl', 'Tt'), ('mi', 'Tt'), ('0', 'Tt'))}}
    H, Ht = mk('H'), mk('Ht')
    kin = (q2, mB, mV, mb, 0, ml, ml)
    a = v.real('phi', dom=(-3, 3))
    e = v.fcos(a) + v.i()*v.fsin(a)
    Jh = angular.angularcoeffs_h_v(a, full(H), full(Ht), *kin)
    J = lambda h: angular.angularcoeffs_general_v(full(h), *kin)
    Js, J1, J2 = J({k: H[k] + e*Ht[k] for k in HV}), J(H), J(Ht)
    for i in JV:
        v.ensure('J%s' % i, v.eq(Jh[i], Js[i] - J1[i] - J2[i], tol=1e-6, scale=1e-3))
    Jt = J(tilde(H))
    for i in JV:
        v.ensure('J%s CP' % i, v.eq(Jt[i], J1[i]*(-1 if i in (5, '6s', '6c', 8, 9) else 1), scale=1e-3))


@harness('C19', targets=[BS + f for f in ('bsvll_obs_int', 'bsvll_dbrdq2_int', 'bsvll_dbrdq2_int_func', 'bsvll_obs_int_ratio_func',
                                          'bsvll_obs_int_ratio_leptonflavour', 'bsvll_dbrdq2_19_func', 'bsvll_dbrdq2')],
         uses=[BS + 'bsvll_obs', BV + 'nintegrate_pole'], max_paths=100, time_limit=300, native_n=2)
def bsvll_binned(v):
    """binned observables are ratios of integrals of the differential ones; lepton flavour ratios"""
    mode, lep = v.choice('mode', list(SM_)), v.choice('lepton', LEP)
    B, M = SM_[mode]
    par, wc = setup(v)
    mixing_contract(v)
    quad = pole_contract(v)
    x, y = inside(v, par, B, M, LEP)
    yy = par['DeltaGamma/Gamma_Bs']/2
    v.assume_(v.gt(1, yy**2))

    def val(function, q2, wc_obj, par_, B_, V, l):
        J, Jb, Jh = ({n: v.uf('%s %s' % (k, n), q2, par['m_' + l]) for n in JV} for k in ('J', 'Jb', 'Jh'))
        v.assume_(v.gt(rate_v(J) + rate_v(Jb) - yy*rate_v(Jh), 0))
        return function(yy, J, Jb, Jh)
    v.contract(bsobs.bsvll_obs, val)
    o = lambda n, *a, l=lep: pred('%s(%s%s%s)' % (n, mode, l, l), par, wc, *a)
    bin_ = lambda l: quad(lambda q2: o('dBR/dq2', q2, l=l), x, y)
    for l in LEP:
        v.nonzero(bin_(l)/par['tau_' + B] if v.sym else 1)
    v.ensure('<dBR/dq2>', v.eq(o('<dBR/dq2>', x, y)*(y - x), bin_(lep), tol=0.02))
    if v.sym:
        for n in BSOBS:
            f = {'FL': bsobs.FL_num_Bs}.get(n, lambda *a, n=n: bsobs.S_experiment_num_Bs(*a, int(n[1])))
            num = quad(lambda q2: val(f, q2, None, par, B, M, lep), x, y)
            v.nonzero(num)
            v.ensure('<%s>' % n, v.eq(o('<%s>' % n, x, y)*2*bin_(lep), num*par['tau_' + B]))
    if lep != 'tau':
        a = {'e': ('mu', 'e'), 'mu': ('tau', 'mu')}[lep]
        v.ensure('<R>', v.eq(pred('<R%s%s>(%sll)' % (*a, mode), par, wc, x, y)*bin_(a[1]), bin_(a[0]), tol=0.03))
    if (mode, lep) == ('Bs->K*0', 'mu') and v.sym:
        v.ensure('BR LHCb', v.eq(o('BR_LHCb'), (1 + par['delta_BsKstarmumu'])*quad(lambda q2: o('dBR/dq2', q2), v.num('1/10'), 19)))


# ------------------------------------------------------------------ B -> l l
@harness('C19', targets=[BL + f for f in ('amplitudes', 'ADeltaGamma', 'br_inst', 'bqll_obs', 'bqll_obs_function', 'ADeltaGamma_func')], uses=[W + 'wctot_dict'], max_paths=20, time_limit=200)
def bll_rates(v):
    """prompt rates of B -> l l and the rate asymmetry of the Bs mass eigenstates"""
    B, lep = v.choice('B', ['B0', 'Bs']), v.choice('lepton', LEP)
    par, wc = setup(v)
    scale = config['renormalization scale']['bll']
    m, mB = par['m_' + lep], par['m_' + B]
    v.assume_(v.gt(mB, 2*m))
    qq = meson_quark[B]
    n = qq + lep + lep
    C = wilsoncoefficients.wctot_dict(wc, n, scale, par)
    mb, mq = running.get_mb(par, scale, nf_out=5), (running.get_ms if B == 'Bs' else running.get_md)(par, scale, nf_out=5)
    N = ckm.xi('t', qq)(par)*4*par['GF']/v.fsqrt(2)*running.get_alpha(par, 4.8)['alpha_e']/(4*v.pi)
    g = lambda x: C['C%s_%s' % (x, n)] - C['C%sp_%s' % (x, n)]
    r = mB**2*mb/(mb + mq)
    S, P = r*g('S'), 2*m*g('10') + r*g('P')
    # sum over spins |lbar l|^2 = 2(mB^2-4m^2), |lbar gamma5 l|^2 = 2 mB^2
    s2, p2 = 2*(mB**2 - 4*m**2)*sq(S), 2*mB**2*sq(P)
    br = par['tau_' + B]*v.fsqrt(lambda_K(mB**2, m**2, m**2))/(16*v.pi*mB**3)*sq(N)*par['f_' + B]**2/4*(s2 + p2)
    o = lambda x: pred(x, par, wc)
    if B == 'B0':
        return v.ensure('prompt rate', v.eq(o('BR(B0->%s%s)' % (lep, lep)), br))
    v.assume_(v.gt(s2 + p2, 0))
    A = (2*mB**2*(P*P).real - 2*(mB**2 - 4*m**2)*(S*S).real)/(s2 + p2)
    v.ensure('A', v.eq(o('ADeltaGamma(Bs->%s%s)' % (lep, lep)), A))
    v.ensure('prompt rate', v.eq(bll.bqll_obs(bll.br_inst, wc, par, 'Bs', lep, lep), br))


@harness('C19', targets=[BL + f for f in ('br_lifetime_corr', 'br_timeint', 'bqll_obs', 'bqll_obs_function', 'tau_ll', 'tau_ll_func')],
         uses=[BL + 'br_inst', BL + 'ADeltaGamma', W + 'wctot_dict'], max_paths=20, time_limit=200)
def bll_time_evolution(v):
    """time-integrated rate and effective lifetime of an untagged sample from the prompt rate and the rate asymmetry of the mass eigenstates"""
    lep = v.choice('lepton', LEP)
    par, wc = setup(v)
    scale = config['renormalization scale']['bll']
    v.contract(bll.br_inst, lambda par, wc, B, l1, l2: v.uf('prompt', B, l1, l2, wc['C10_bs' + l1 + l2]))
    v.contract(bll.ADeltaGamma, lambda par, wc, B, l: v.uf('A', B, l, wc['C10_bs' + l + l]))
    C = wilsoncoefficients.wctot_dict(wc, 'bs' + lep + lep, scale, par)
    br, A = bll.br_inst(par, C, 'Bs', lep, lep), bll.ADeltaGamma(par, C, 'Bs', lep)
    o = lambda x: pred(x, par, wc)
    y = par['DeltaGamma/Gamma_Bs']/2
    v.assume_(v.gt(1, y**2))
    # e^-t (cosh yt + A sinh yt) = (1+A)/2 e^-(1-y)t + (1-A)/2 e^-(1+y)t: zeroth and first moment
    N0 = (1 + A)/2/(1 - y) + (1 - A)/2/(1 + y)
    N1 = (1 + A)/2/(1 - y)**2 + (1 - A)/2/(1 + y)**2
    v.ensure('time-integrated rate', v.eq(o('BR(Bs->%s%s)' % (lep, lep)), br*N0))
    v.ensure('effective lifetime', v.eq(o('tau_%s%s' % (lep, lep))*N0, par['tau_Bs']*N1))


@harness('C19', targets=[BL + 'ADeltaGamma', BL + 'br_lifetime_corr'], max_paths=20)
def bll_asymmetry_range(v):
    """|A_DeltaGamma| <= 1; A_DeltaGamma = 1 without scalars and new phases; the time-integrated rate is between the rates of the two mass eigenstates"""
    p, s = v.cplx('P'), v.cplx('S')
    v.contract(bll.amplitudes, lambda *a: (p, s))
    n2 = sq(p) + sq(s)
    v.assume_(v.gt(n2, 0))
    y, A = v.real('y', -0.99, 0.99), v.real('A', -1, 1)
    c = bll.br_lifetime_corr(y, A)
    if not v.sym:
        return v.ensure('corr', v.eq(c*(1 + A*y), 1 - y*y))
    a = bll.ADeltaGamma(None, None, 'Bs', 'mu')
    v.ensure('1 - A', v.eq((1 - a)*n2, 2*p.imag**2 + 2*s.real**2))
    v.ensure('1 + A', v.eq((1 + a)*n2, 2*p.real**2 + 2*s.imag**2))
    v.ensure('corr', v.eq(c*(1 + A*y), 1 - y*y))


# ------------------------------------------------------------------ CP conjugation of the subleading contributions
CPNAMES = sorted(n for n in Implementation.instances if 'subleading effects' in Implementation[n].quantity)
RANGE = {'K*0': (1.1, 16), 'K*+': (1.1, 16), 'phi': (1.1, 16), 'K0': (1.1, 20), 'K+': (1.1, 20), 'Lambda': (1.1, 18)}


def cp_setup(v):
    phys.ckm_contract(v)
    phys.masses_contract(v)

    def ff(self, par_dict, wc_obj, *args, **kw):
        q2 = kw.get('q2', args[0] if args else None)
        keys = (['%s_%s' % a for a in (('fVt', ''), ('fVperp', ''))] and LFF) if self.name.startswith('Lambdab') else phys.ff_keys(self.name)
        return {k: v.uf('%s.%s' % (self.name, k), q2) for k in keys}
    v.contract(AuxiliaryQuantity.prediction, ff)


LFF = ('fV0', 'fVperp', 'fVt', 'fA0', 'fAperp', 'fAt', 'fT0', 'fTperp', 'fT50', 'fT5perp')


POLY = ['%s deltaC%s %s' % (d, c, p) for d, cs in
        [('%s->%s' % d, [(7, 'a_0'), (7, 'b_0'), (7, 'a_-'), (7, 'b_-'), ('7p', 'a_+'), ('7p', 'b_+'), (9, 'c_0'), (9, 'c_+'), (9, 'c_-')])
         for d in (('B0', 'K*0'), ('B+', 'K*+'), ('Bs', 'phi'))] +
        [('%s->%s' % d, [(c, p) for c in (7, 9) for p in 'abc']) for d in (('B0', 'K0'), ('B+', 'K+'))] +
        [('Lambdab->Lambda', [(c, p + a) for c, ps in ((7, ('a_', 'b_')), (9, ('c_',))) for p in ps for a in ('perp0', 'para0', 'perp1', 'para1')])]
        for c, q in cs for p in (q + ' Re', q + ' Im')]


@harness('C19', targets=[BV.replace('observables', 'subleading') + f for f in ('fct_deltaC7C7p_polynomial', 'fct_deltaC9_constant')] +
         [B_ + 'bpll_subleading.' + f for f in ('fct_deltaC7_polynomial', 'fct_deltaC9_polynomial', 'fct_deltaC9_constant')] +
         [B_ + 'lambdablambdall_subleading.' + f for f in ('fct_deltaC7_polynomial', 'fct_deltaC9_constant')],
         uses=['flavio.physics.ckm.get_ckm', 'flavio.classes.AuxiliaryQuantity.prediction'], max_paths=60, time_limit=250)
def subleading_cp(v):
    """the subleading contributions to the CP-conjugate amplitudes are the contributions themselves with only the CKM phase reversed: the strong phases of
    the hadronic effects stay, the prefactor is conjugated"""
    n = v.choice('implementation', CPNAMES)
    cp_setup(v)
    par = v.par()
    q2 = v.real('q2', pos=True, dom=RANGE[n.split('->')[1].split('ll')[0]])
    im = Implementation[n]
    for k in POLY:
        par[k] = v.real('par.' + k)
    bar = im.function(wc_obj=None, par_dict=par, q2=q2, cp_conjugate=True)
    ref = im.function(wc_obj=None, par_dict=conjugate_par(par), q2=q2, cp_conjugate=False)
    same = im.function(wc_obj=None, par_dict=conjugate_par(par), q2=q2, cp_conjugate=True)
    plain = im.function(wc_obj=None, par_dict=par, q2=q2, cp_conjugate=False)
    v.ensure('amplitudes', set(bar) == set(ref) == set(plain) and len(plain) > 0)
    for k in bar:
        v.ensure('%s: conjugate amplitude' % (k,), v.eq(bar[k], ref[k]))
        v.ensure('%s: twice conjugated' % (k,), v.eq(same[k], plain[k]))


# ------------------------------------------------------------------ total and effective coefficients
YI = ('-1/3', '-4/9', '-20/3', '-80/9')
ZI = (1, '-1/6', 20, '-10/3')


def chir(k):
    """name of the coefficient of the operator with flipped chirality"""
    h, t = k.split('_')
    return h + 'p_' + t


@harness('C19', targets=[W + 'wctot_dict', W + 'get_C78eff', 'flavio.physics.common.add_dict'], uses=['flavio.physics.running.running.get_mb', 'flavio.physics.running.running.get_ms'],
         max_paths=10, note='the table of Standard Model coefficients is an assumption (data)')
def totals(v):
    """total coefficients: the Standard Model value plus the full new physics contribution for each operator; effective dipole coefficients are the scheme
    independent combinations, flipped ones alike"""
    qq, ll = v.choice('transition', ('bs', 'bd')), v.choice('lepton', ('ee', 'mumu', 'tautau'))
    phys.masses_contract(v)
    par = v.par()
    table = wilsoncoefficients.wcsm_nf5
    sm = [v.real('sm%d' % i, dom=(0.5, 2)) for i in range(15)] if v.sym else None
    import numpy as np
    v.setattr_sym(wilsoncoefficients, 'wcsm_nf5', lambda scale: np.array(sm, dtype=object))
    wc = phys.wcs(v, scale=0.3)
    sector = qq + ll
    for scale in (4.8, 4.2):
        if not v.sym:
            sm = list(table(scale))
        np_ = wc.get_wc(sector, scale, par, nf_out=5)
        tot = wilsoncoefficients.wctot_dict(wc, sector, scale, par)
        y = lambda f: sum((v.num(c)*f('C%d' % i) for i, c in zip((3, 4, 5, 6), YI)), 0)
        z = lambda f: sum((v.num(c)*f('C%d' % i) for i, c in zip((3, 4, 5, 6), ZI)), 0)
        smc = lambda n: sm[int(n[1:]) - 1]
        c7, c8 = sm[6] - y(smc), sm[7] - z(smc)
        ref = {'C%d_%s' % (i, qq): sm[i - 1] for i in range(1, 7)}
        ref.update({'C7_' + qq: c7, 'C8_' + qq: c8, 'C9_' + sector: sm[8], 'C10_' + sector: sm[9]*(par['m_t']/v.num('173.1'))**1.53})
        ref.update({n + '_' + qq: x for n, x in zip(('C3Q', 'C4Q', 'C5Q', 'C6Q', 'Cb'), sm[10:])})
        if qq == 'bs':
            eps = running.get_ms(par, scale)/running.get_mb(par, scale)
            ref.update({'C7p_bs': eps*c7, 'C8p_bs': eps*c8})
        for k in np_:
            v.ensure('%s at %s' % (k, scale), v.eq(tot[k], np_[k] + ref.get(k, 0)))
        for k in ref:
            if k not in np_:
                v.ensure('%s at %s' % (k, scale), v.eq(tot[k], ref[k]))
        t = lambda n: tot[n + '_' + qq]
        tp = lambda n: tot[n + 'p_' + qq]
        for n, f, g in (('7', y, 'C7'), ('8', z, 'C8')):
            v.ensure('C%seff at %s' % (n, scale), v.eq(tot['C%seff_%s' % (n, qq)], t(g) + f(t)))
            v.ensure('C%seff flipped at %s' % (n, scale), v.eq(tot['C%seffp_%s' % (n, qq)], tp(g) + f(tp)))
        if not v.sym:
            break


EFFBM = [('B0', 'K*0'), ('B+', 'K+'), ('B0', 'pi0'), ('Bs', 'phi'), ('Bs', 'K*0'), ('Lambdab', 'Lambda')]


@harness('C19', targets=[W + f for f in ('get_wceff', 'get_wceff_lfv', 'get_wceff_nunu')], uses=[ME + f for f in ('Y', 'Yu', 'delta_C7', 'delta_C9')],
         max_paths=20)
def effective(v):
    """effective coefficients of the amplitudes: quark loops enter the vector and the electromagnetic dipole coefficient only, with the relative CKM factor
    of the up quark; lepton flavour violating and neutrino modes have no such contributions, neutrinos couple left-handed"""
    B, M = v.choice('decay', EFFBM)
    lep = v.choice('lepton', LEP)
    phys.ckm_contract(v)
    phys.masses_contract(v)
    par = v.par()
    q2 = v.real('q2', pos=True, dom=(1, 8))
    qq, scale = meson_quark[B, M], 4.8
    for n in ('Y', 'Yu'):
        v.contract(getattr(matrixelements, n), lambda q2, wc, par, scale, qiqj, n=n: v.ufc(n, q2, scale, qiqj, wc['C1_' + qiqj]))
    for n in ('delta_C7', 'delta_C9'):
        v.contract(getattr(matrixelements, n), lambda par, wc, q2, scale, qiqj, n=n: v.ufc(n, q2, scale, qiqj, wc['C1_' + qiqj], par['gamma']))
    wc = {k: v.cplx(k) for k in wilsoncoefficients.fcnclabels[qq + lep + lep]}
    wc.update({k + qq: v.cplx(k + qq) for k in ('C7eff_', 'C7effp_', 'C8eff_')})
    wc.update({k + qq + 'emu': v.cplx('lfv' + k) for k in ('C9_', 'C10_', 'C9p_', 'C10p_', 'CS_', 'CP_', 'CSp_', 'CPp_')})
    wc.update({k + qq + 'nuenumu': v.cplx('nu' + k) for k in ('CL_', 'CR_')})
    mb = running.get_mb(par, scale)
    c = wilsoncoefficients.get_wceff(q2, wc, par, B, M, lep, scale)
    xu, xt = ckm.xi('u', qq)(par), ckm.xi('t', qq)(par)
    Y, Yu = matrixelements.Y(q2, wc, par, scale, qq), matrixelements.Yu(q2, wc, par, scale, qq)
    d7 = matrixelements.delta_C7(par=par, wc=wc, q2=q2, scale=scale, qiqj=qq)
    d9 = matrixelements.delta_C9(par=par, wc=wc, q2=q2, scale=scale, qiqj=qq)
    ll = qq + lep + lep
    v.ensure('vector', v.eq((c['v'] - wc['C9_' + ll] - d9 - Y)*xt, xu*Yu))
    v.ensure('dipole', v.eq(c['7'], wc['C7eff_' + qq] + d7))
    v.ensure('flipped dipole', v.eq(c['7p'], wc['C7effp_' + qq]))
    f = wilsoncoefficients.get_wceff_lfv(q2, wc, par, B, M, 'e', 'mu', scale)
    nn = wilsoncoefficients.get_wceff_nunu(q2, wc, par, B, M, 'nue', 'numu', scale)

    def rest(name, c, s, keys):
        for k, w in keys.items():
            v.ensure('%s: %s' % (name, k), v.eq(c[k], wc[w + '_' + s]*(mb if w[1] in 'SP' else 1)))
        v.ensure(name + ': no tensor', v.and_(v.eq(c['t'], 0), v.eq(c['tp'], 0)))
    K = {'vp': 'C9p', 'a': 'C10', 'ap': 'C10p', 's': 'CS', 'sp': 'CSp', 'p': 'CP', 'pp': 'CPp'}
    rest('ll', c, ll, K)
    rest('lfv', f, qq + 'emu', {**K, 'v': 'C9'})
    v.ensure('lfv: no dipole', v.and_(v.eq(f['7'], 0), v.eq(f['7p'], 0)))
    s = qq + 'nuenumu'
    v.ensure('neutrinos', v.and_(v.eq(nn['v'], wc['CL_' + s]), v.eq(nn['vp'], wc['CR_' + s]), v.eq(nn['a'], -wc['CL_' + s]), v.eq(nn['ap'], -wc['CR_' + s])))
    v.ensure('neutrinos: nothing else', v.and_(*[v.eq(nn[k], 0) for k in ('7', '7p', 's', 'sp', 'p', 'pp', 't', 'tp')]))


# ------------------------------------------------------------------ quark loops
def loopwc(v, qq):
    d = {'%s_%s' % (k, qq): v.cplx(k) for k in ('C1', 'C2', 'C3', 'C4', 'C5', 'C6')}
    d['C8eff_' + qq] = v.cplx('C8eff')
    return d


@harness('C19', targets=[ME + 'Y', ME + 'Yu'], uses=[ME + 'h', 'flavio.physics.running.running.get_mb_pole', 'flavio.physics.running.running.get_mc_pole'], max_paths=10)
def one_loop(v):
    """one-loop matrix elements of the four-quark operators: charm, bottom and massless loops with their colour and charge factors; the up quark
    contribution is the difference of massive and massless loops of the current-current operators"""
    qq = v.choice('transition', ('bs', 'bd'))
    mb, mc = (v.real(n, pos=True, dom=d) for n, d in (('mb', (4.5, 5)), ('mc', (1.4, 1.8))))
    v.contract(running.get_mb_pole, lambda par: mb)
    v.contract(running.get_mc_pole, lambda par: mc)
    h = matrixelements.h
    v.contract(h, lambda s, mq, mu: v.ufc('h', s, mq, mu))
    h = matrixelements.h
    par = v.par()
    if not v.sym:
        mb, mc = running.get_mb_pole(par), running.get_mc_pole(par)
    q2, mu = v.real('q2', pos=True, dom=(1, 20)), v.real('mu', pos=True, dom=(3, 5))
    wc = loopwc(v, qq)
    C = {i: wc['C%d_%s' % (i, qq)] for i in range(1, 7)}
    n = v.num
    c = n('4/3')*C[1] + C[2] + 6*C[3] + 60*C[5]
    b = 7*C[3] + n('4/3')*C[4] + 76*C[5] + n('64/3')*C[6]
    l = C[3] + n('4/3')*C[4] + 16*C[5] + n('64/3')*C[6]
    k = n('4/3')*C[3] + n('64/9')*C[5] + n('64/27')*C[6]
    hc, hb, h0 = h(q2, mc, mu), h(q2, mb, mu), h(q2, 0., mu)
    v.ensure('Y', v.eq(2*matrixelements.Y(q2, wc, par, mu, qq), 2*hc*c - hb*b - h0*l + 2*k))
    v.ensure('Yu', v.eq(matrixelements.Yu(q2, wc, par, mu, qq), (n('4/3')*C[1] + C[2])*(hc - h0)))


def loops(v):
    gim = {}
    qq = v.choice('transition', ('bs', 'bd'))
    phys.ckm_contract(v)
    phys.masses_contract(v)
    mb, mc = (v.real(n, pos=True, dom=d) for n, d in (('mb', (4.5, 5)), ('mc', (1.4, 1.8))))
    v.contract(running.get_mb_pole, lambda par: mb)
    v.contract(running.get_mc_pole, lambda par: mc)
    F = {}
    for n in ('F_17', 'F_27', 'F_19', 'F_29'):
        F[n] = lambda muh, z, sh, n=n: v.ufc(n, muh, z, sh)
    F['F_87'] = lambda Lmu, sh: v.ufc('F_87', getattr(Lmu, 'real', Lmu), sh)
    F['F_89'] = lambda Ls, sh: v.ufc('F_89', getattr(Ls, 'real', Ls), sh)
    for n in 'ABC':
        F['Seidel' + n] = lambda q2, mb, mu, n=n: v.ufc(n, q2, mb, mu)
    for n in F:
        v.contract(getattr(matrixelements, n), F[n])
    par, wc = v.par(), loopwc(v, qq)
    if not v.sym:
        mb, mc = running.get_mb_pole(par), running.get_mc_pole(par)
        F = {n: getattr(matrixelements, n) for n in F}
    q2, mu = v.real('q2', pos=True, dom=(1, 20)), v.real('mu', pos=True, dom=(3, 5))
    xu, xt, als = ckm.xi('u', qq)(par), ckm.xi('t', qq)(par), running.get_alpha(par, mu)['alpha_s']
    C1, C2, C8 = wc['C1_' + qq], wc['C2_' + qq], wc['C8eff_' + qq]
    for name, f, mch in (('delta_C7', '7', par['m_c BVgamma']), ('delta_C9', '9', mc)):
        muh, z, sh = mu/mb, mch**2/mb**2, q2/mb**2
        A, B, C = (F['Seidel' + n](q2, mb, mu) for n in 'ABC')
        # up quark loops of the two operators
        u1, u2 = (-A, 6*A) if f == '7' else (-B - 4*C, 6*B - 3*C)
        c = C1*F['F_1' + f](muh, z, sh) + C2*F['F_2' + f](muh, z, sh)
        g = C8*F['F_8' + f](v.flog(mu/mb) if f == '7' else v.flog(sh), sh)
        d = getattr(matrixelements, name)(par=par, wc=wc, q2=q2, scale=mu, qiqj=qq)
        # the sign of the part of the charm loops that is proportional to xi_u: two_loop_gim
        gim[name] = d*4*v.pi*xt, [-als*(g*xt + c*(xt + sign*xu) - xu*(C1*u1 + C2*u2)) for sign in (-1, 1)]
    return gim


@harness('C19', targets=[ME + 'delta_C7', ME + 'delta_C9', ME + 'Fu_17', ME + 'Fu_27', ME + 'Fu_19', ME + 'Fu_29'],
         uses=[ME + f for f in ('F_17', 'F_27', 'F_19', 'F_29', 'F_87', 'F_89', 'SeidelA', 'SeidelB', 'SeidelC')], max_paths=10)
def two_loop(v):
    """two-loop matrix elements: charm loops of the current-current operators with the CKM factor of the top quark plus that of the up quark, up quark
    loops with the CKM factor of the up quark; the colour structure relates the loops of the two operators"""
    for name, (d, e) in loops(v).items():
        v.ensure(name, v.eq((2*d - e[0] - e[1])**2, (e[0] - e[1])**2) if v.sym else v.or_(v.eq(d, e[0]), v.eq(d, e[1])))


@harness('C19', targets=[ME + 'delta_C7', ME + 'delta_C9'], uses=[ME + f for f in ('F_17', 'F_27', 'F_19', 'F_29', 'F_87', 'F_89', 'SeidelA', 'SeidelB', 'SeidelC')],
         max_paths=10, native_n=6)
def two_loop_gim(v):
    """charm loops carry the CKM factor of the charm quark, -xi_t - xi_u: equal up and charm loops cancel in the part proportional to xi_u"""
    for name, (d, e) in loops(v).items():
        v.ensure(name + ': charm loops', v.eq(d, e[1]))


def B0(s):
    r = np.sqrt(4/s - 1)
    return -2*r*np.arctan(1/r)


def C0(s):
    return scipy.integrate.quad(lambda x: np.log(x*x/(1 - x*(1 - x)*s))/(x*(1 - s) + 1), 0, 1)[0]


@harness('C19', targets=[ME + f for f in ('F_17', 'F_27', 'F_87', 'F_89', '_cached_F_17', '_cached_F_27', '_cached_SeidelA', '_cached_SeidelB', 'SeidelA', 'SeidelB')], level='bounded',
         native_only=True, native_n=6, note='sampled momentum transfers and scales, run time only')
def two_loop_functions(v):
    """two-loop functions: the gluon dipole contributions are the expansions of the exact ones to third order in the momentum transfer; the up quark functions
    are continuous at zero momentum transfer and have no poles at maximal momentum transfer; light charm loops approach the up quark loops (which are defined with the opposite sign)"""
    me = matrixelements
    s = v.real('s', pos=True, dom=(0.005, 0.2))
    exact7 = -8/9*s/(1 - s)*np.log(s) - 8j/9*np.pi - 4/9*(11 - 16*s + 8*s*s)/(1 - s)**2 + 4/9/(1 - s)**3*((9*s - 5*s*s + 2*s**3)*B0(s) - (4 + 2*s)*C0(s))
    exact9 = 16/9/(1 - s)*np.log(s) + 8/9*(5 - 2*s)/(1 - s)**2 - 8/9*(4 - s)/(1 - s)**3*((1 + s)*B0(s) - 2*C0(s))
    r = s**4*(1 + 2*abs(np.log(s)))
    L = v.real('L', dom=(-0.5, 0.5))
    v.ensure("F_87", bool(abs(me.F_87(L, s) - exact7 + 32/9*L) < r/2))
    v.ensure('F_89', bool(abs(me.F_89(np.log(s), s) - exact9) < r))
    v.ensure('F_87 at zero', bool(abs(me.F_87(L, 0) - me.F_87(L, 1e-9)) < 1e-6))
    mb, x = v.real('mb', pos=True, dom=(4.5, 5)), v.choice('mu/mb', [0.5, 0.8, 1.0, 1.3, 1.5])
    A, B = (lambda t, f=f: f(t*mb**2, mb, x*mb) for f in (me.SeidelA, me.SeidelB))
    v.ensure('A at zero', bool(abs(A(0) - A(1e-7)) < 1e-4))
    for n, f in (('A', A), ('B', B)):
        t = np.array([0.7, 0.78, 0.86, 0.94])
        k = np.polyfit(t, [f(y) for y in t], 3)
        v.ensure(n + ' has no pole', bool(abs(np.polyval(k, 0.99) - f(0.99)) < 1e-3 and abs(np.polyval(k, 0.6) - f(0.6)) < 1e-2))
    t = v.real('t', pos=True, dom=(0.02, 0.3))
    a = A(t)
    v.ensure('light charm quarks', bool(abs(me.F_17(x, 0., t) + a) < 0.5*abs(a) and abs(me.F_27(x, 0., t) - 6*a) < 3*abs(a)))


def loop_b(v, x, s, m, mu):
    """the nontrivial part of the loop function"""
    z = 4*m*m/s
    return z, (v.num('8/27') - v.num('4/9')*v.flog(m*m/(mu*mu)) + v.num('4/9')*z - x)/(v.num('4/9')*(2 + z))


@harness('C19', targets=[ME + 'h'], max_paths=20, total='real', z3_ms=3000)
def loop_function(v):
    """the fermion loop: logarithmic scale dependence of the right size, differential equation in the momentum transfer below and above threshold, continuity
    and value at threshold, absorptive part above threshold of the sign and size of the phase space, massless and zero-momentum limits"""
    m, mu, mu2 = (v.real(n, pos=True, dom=(1, 5)) for n in ('m', 'mu', 'mu2'))
    h = matrixelements.h
    n = v.num
    case = v.choice('case', ('below', 'above', 'threshold', 'massless', 'zero', 'points'))
    if case in ('below', 'above'):
        lo, hi = (0.2, 0.95) if case == 'below' else (1.05, 5)
        r = v.real('s/4m^2', pos=True, dom=(lo, hi))
        v.assume_(v.gt(1, r) if case == 'below' else v.gt(r, 1))
        s = 4*m*m*r
        x = h(s, m, mu)
        z, b = loop_b(v, x, s, m, mu)
        v.ensure('scale', v.eq(h(s, m, mu2) - x, n('4/9')*v.flog(mu2**2/mu**2)))
        re = lambda u: (h(4*m*m*u, m, mu)).real
        db = v.deriv(re, r)
        # with z = 1/r: dh/dr = -z^2 dh/dz;  dB/dz = B/(2(z-1)) - 1/(2z)
        B = b.real
        dB = B/(2*(z - 1)) - 1/(2*z)
        v.ensure('differential equation', v.eq(db, -z*z*(n('4/9') - n('4/9')*B - n('4/9')*(2 + z)*dB), tol=1e-6))
        if case == 'below':
            v.ensure('no absorptive part', v.eq(x.imag, 0))
        else:
            v.ensure('absorptive part', v.eq(x.imag, n('2/9')*v.pi*(2 + z)*v.fsqrt(1 - z)))
    elif case == 'threshold':
        z, b = loop_b(v, h(4*m*m, m, mu), 4*m*m, m, mu)
        v.ensure('threshold', v.eq(b, 0))
    elif case == 'points':
        z, b = loop_b(v, h(2*m*m, m, mu), 2*m*m, m, mu)
        v.ensure('below: z = 2', v.eq(b.real, v.pi/4))
        z, b = loop_b(v, h(n('9/2')*m*m, m, mu), n('9/2')*m*m, m, mu)
        v.ensure('above: z = 8/9', v.eq(6*b.real, v.flog(n(2))))
    elif case == 'massless':
        s = v.real('s', pos=True, dom=(1, 20))
        x = h(s, 0., mu)
        v.ensure('massless', v.eq(x, n('8/27') - n('4/9')*v.flog(s/mu**2) + v.i()*n('4/9')*v.pi))
    else:
        v.ensure('zero momentum', v.eq(h(0., m, mu), -n('4/9')*(1 + v.flog(m*m/(mu*mu)))))


@harness('C19', targets=[ME + 'F_87', ME + 'F_89', ME + 'SeidelA', ME + 'SeidelC'], uses=['flavio.math.functions.li2'], max_paths=20,
         note='the coefficients of the expansions are data of the cited papers')
def loop_scales(v):
    """renormalisation scale dependence of the two-loop functions; continuity of the chromomagnetic matrix element at zero momentum transfer"""
    A = matrixelements._cached_SeidelA
    A = getattr(A, '__wrapped__', A) if not v.sym else A
    v.contract(matrixelements.li2, lambda x: v.uf('li2', x))
    mb, m1, m2 = (v.real(n, pos=True, dom=(3, 5)) for n in ('mb', 'mu1', 'mu2'))
    q2 = v.real('q2', pos=True, dom=(0.5, 15))
    v.assume_(v.gt(mb**2*v.num('0.99'), q2))
    L = v.flog(m1**2/m2**2)
    n = v.num
    v.ensure('A', v.eq(A(q2, mb, m1) - A(q2, mb, m2), n('104/243')*L))
    v.ensure('A at q2=0', v.eq(A(0, mb, m1) - A(0, mb, m2), n('104/243')*L))
    C = matrixelements.SeidelC
    v.ensure('C', v.eq(C(q2, mb, m1) - C(q2, mb, m2), n('16/81')*L))
    v.ensure('C independent of the mass', v.eq(C(q2, mb, m1), C(q2, 2*mb, m1)))
    s, l1, l2 = v.real('sh', pos=True, dom=(0.1, 0.9)), v.real('l1'), v.real('l2')
    F7, F9 = matrixelements.F_87, matrixelements.F_89
    v.ensure('F87', v.eq(F7(l1, s) - F7(l2, s), -n('32/9')*(l1 - l2)))
    v.ensure('F87 at zero', v.eq(F7(l1, 0.) - F7(l2, 0.), -n('32/9')*(l1 - l2)))
    v.ensure('F89', v.eq(F9(l1, s) - F9(l2, s), n('16/9')*(1 + s + s**2 + s**3)*(l1 - l2)))
    # polynomial in s once the logarithm is split off: linear extrapolation from four points is exact for s^0..s^3
    g = lambda x: F7(l1, x) + n('8/9')*v.flog(x)*(x + x*x + x**3)
    v.ensure('F87 continuous at zero', v.eq(4*g(s) - 6*g(2*s) + 4*g(3*s) - g(4*s), F7(l1, 0.)))


# ------------------------------------------------------------------ inclusive decays
def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False


BX = B_ + 'bxll.'
XW = ('C7eff_', 'C9_', 'C10_')
_O = tuple('C%d_' % i for i in range(1, 7)) + ('C7eff_', 'C8eff_')


def xwc(v, q, lep, only=None):
    """coefficients of the inclusive rates: all of them, or all others zero"""
    names = {int(n[1:].rstrip('_ef')): n + 'b' + q for n in _O}
    names.update({9: 'C9_b%s%s' % (q, 2*lep), 10: 'C10_b%s%s' % (q, 2*lep)})
    C = {i: v.cplx('C%d' % i) if only is None or i in only else v.num(0) for i in names}
    return C, {names[i]: C[i] for i in names}


@harness('C19', targets=[BX + 'f_ll', BX + 'f_ll_ha'], uses=[BX + f for f in ('tau77', 'tau79', 'tau99', 'tau710', 'tau910')], max_paths=10, z3_ms=5000)
def inclusive_rate(v):
    """B -> X l l at the quark level: sum of squares of the helicity amplitudes with the full lepton mass dependence, each interference with its own real
    radiation; the forward-backward asymmetry is the interference of left- and right-handed amplitudes and odd under the exchange of chiralities"""
    s, m, a = v.real('s', pos=True, dom=(0.1, 0.9)), v.real('mlh', pos=True, dom=(0.01, 0.15)), v.real('alpha_s', nonneg=True, dom=(0.1, 0.3))
    v.assume_(v.gt(s, 4*m*m))
    v.assume_(v.gt(1, s))
    for t in ('77', '79', '99', '710', '910'):
        v.setattr(bxll, 'tau' + t, lambda s, t=t: v.ufc('tau' + t, s).real)
    C = {k: v.cplx(k) for k in ('7', 'v', 'a', 's', 'p', '7p', 'vp', 'ap')}
    x, n = m*m/s, v.num
    T = {t: 1 + a/v.pi*getattr(bxll, 'tau' + t)(s) for t in ('77', '79', '99', '710', '910')}
    beta = v.fsqrt(1 - 4*m**2/s)
    c7, c9, c10, cs, cp = (C[k] for k in ('7', 'v', 'a', 's', 'p'))
    # longitudinal and transverse vector amplitudes, axial vector amplitudes, scalar amplitude, pseudoscalar amplitude with the divergence of the axial vector current
    want = (1 + 2*x)*(sq(c9 + 2*c7) + 2*s*sq(c9 + 2/s*c7)) + (1 - 4*x)*(1 + 2*s)*sq(c10) + n('3/2')*s*(1 - 4*x)*sq(cs) + n('3/2')*s*sq(cp + 2*m/s*c10)
    # non-universal radiation
    want = want + (1 + 2*x)*(4*(1 + 2/s)*sq(c7)*(T['77'] - 1) + 12*(c7*co(c9)).real*(T['79'] - 1)) + (1 + 2*s + 2*x*(1 - s))*(sq(c9) + sq(c10))*(T['99'] - 1)
    got = bxll.f_ll(s, m, a, c7, c9, c10, cs, cp)
    v.ensure('rate', v.eq(got, (1 - s)**2*beta*want))
    got = bxll.f_ll_ha(s, m, a, C)
    ha = lambda l, r: s*(C['v' + l]*co(C['a' + l])).real*T['910'] + 2*(C['7' + l]*co(C['a' + l])).real*T['710']
    v.ensure('asymmetry', v.eq(got, -4*(1 - s)**2*(ha('', '') - ha('p', 'p'))))


@harness('C19', targets=[BX + 'Phill_pc_mb2'], max_paths=20)
def inclusive_power_corrections(v):
    """1/mb^2 corrections: the kinetic term of the sum of both polarisations is half the leading rate, chromomagnetic and asymmetry terms of the heavy
    quark expansion; only the dipole and semileptonic operators contribute"""
    q, lep = v.choice('q', ['s', 'd']), v.choice('lepton', LEP)
    s, mb = v.real('s', pos=True, dom=(0.05, 0.9)), v.real('mb', pos=True, dom=(4.5, 5))
    l1, l2 = v.real('lambda1', dom=(-0.5, 0)), v.real('lambda2', dom=(0, 0.2))
    C, wc = xwc(v, q, lep)
    n = v.num
    f = lambda i, l1, l2: mb**2*bxll.Phill_pc_mb2(i, s, l1, l2, mb, wc, q, lep)
    c7, c9, c10 = C[7], C[9], C[10]
    p = {i: f(i, l1, l2) for i in 'TLA'}
    lead = (1 - s)**2*(sq(c9 + 2*c7) + 2*s*sq(c9 + 2/s*c7))
    mag = lambda c9: n('3/2')*(1 - 15*s**2 + 10*s**3)*sq(c9)
    mag7 = -6*(6 + 3*s - 5*s**3)/s*sq(c7) - 6*(5 + 6*s - 7*s**2)*(c7*co(c9)).real
    d = p['T'] + p['L'] - l1/2*lead - l2*(mag(c9) + mag7)
    ax = l1/2*(1 - s)**2*(1 + 2*s)*sq(c10) + l2*mag(c10)
    # the axial vector amplitudes: inclusive_power_corrections_axial
    v.ensure('rate', v.eq((2*d - ax)**2, ax**2) if v.sym else v.or_(v.eq(d, ax, scale=p['T']), v.eq(d, 0, scale=p['T'])))
    r9, r7 = (c9*co(c10)).real, (c7*co(c10)).real
    v.ensure('asymmetry', v.eq(p['A'], -n('2/3')*l1*(3*s*s + 2*s + 3)*(s*r9 + 2*r7) + l2*(2*s*(9 + 14*s - 15*s*s)*r9 + 4*(7 + 10*s - 9*s*s)*r7)))
    v.ensure('other', raises(lambda: f('BR', l1, l2)))


@harness('C19', targets=[BX + 'Phill_pc_mb2'], max_paths=20)
def inclusive_power_corrections_axial(v):
    """1/mb^2 corrections to the rate do not depend on the chirality of the massless leptons: vector and axial vector operators contribute equally"""
    q, lep, i = v.choice('q', ['s', 'd']), v.choice('lepton', ['e', 'mu']), v.choice('polarisation', ['T', 'L'])
    s, mb = v.real('s', pos=True, dom=(0.05, 0.9)), v.real('mb', pos=True, dom=(4.5, 5))
    l1, l2 = v.real('lambda1', dom=(-0.5, 0)), v.real('lambda2', dom=(0, 0.2))
    C, wc = xwc(v, q, lep, (9, 10))
    l9, l10 = 'C9_b%s%s' % (q, 2*lep), 'C10_b%s%s' % (q, 2*lep)
    v.ensure('vector and axial vector', v.eq(*(bxll.Phill_pc_mb2(i, s, l1, l2, mb, w, q, lep) for w in (wc, dict(wc, **{l9: wc[l10], l10: wc[l9]})))))


@harness('C19', targets=[BX + f for f in ('Phill_logqed', 'sigmaij_I')] + [BX + 'sigma%s' % f for f in ('77_T', '79_T', '99_T', '77_L', '79_L', '99_L', '710_A', '910_A')],
         uses=[B_ + 'bxll_qed.wem'], max_paths=30, z3_ms=5000)
def inclusive_log_qed(v):
    """logarithmic QED corrections: leading rate of each interference times its correction, colour factor of the two current-current operators, no
    correction distinguishes vector and axial vector leptons"""
    q, lep, I = v.choice('q', ['s', 'd']), v.choice('lepton', ['e', 'mu']), v.choice('observable', ['T', 'L', 'BR', 'A'])
    obs = I
    s, mb, ml, mc = (v.real(n, pos=True, dom=d) for n, d in (('s', (0.05, 0.3)), ('mb', (4.5, 5)), ('ml', (0.001, 0.1)), ('mc', (1.3, 1.7))))
    als, ale = v.real('alpha_s', pos=True, dom=(0.1, 0.3)), v.real('alpha_e', pos=True, dom=(0.007, 0.008))
    C, wc = xwc(v, q, lep)
    real = ((7, 7), (7, 9), (9, 9), (2, 2), (7, 10), (9, 10))
    om = {}

    args = s, mb, ml, mc

    def wem(I, i, j, sh, mb, ml, scale, mc):
        assert I == obs and (sh, mb, ml, mc) == args
        if (i, j) not in om:
            om[i, j] = v.real('omega%d%d' % (i, j), dom=(-3, 3)) if (i, j) in real else v.cplx('omega%d%d' % (i, j))
        return om[i, j]
    v.setattr(bxll, 'wem', wem)
    n = v.num
    got = bxll.Phill_logqed(I, s, mb, ml, als, ale, wc, q, lep, mc)
    for i in ((2, 10), (7, 10), (9, 10)) if I == 'A' else ((2, 2), (2, 7), (2, 9), (7, 7), (7, 9), (9, 9)):
        wem(I, *i, s, mb, ml, None, mc)
    c7, c9, c10 = C[7], C[9], C[10]
    c2 = C[2] + n('4/3')*C[1]
    T, L = (I in ('T', 'BR')), (I in ('L', 'BR'))
    k = 2*ale/v.pi*(1 - s)**2
    if I == 'A':
        want = -4*k*(s*((om[9, 10]*c9 + om[2, 10]*c2)*co(c10)).real + 2*om[7, 10]*(c7*co(c10)).real)
        v.ensure('asymmetry', v.eq(got, want))
        v.ensure('other', raises(lambda: bxll.Phill_logqed('B', s, mb, ml, als, ale, wc, q, lep, mc)))
        return
    w99, w79, w77 = (2*s*T + 1*L), (8*T + 4*L), (8/s*T + 4*L)
    want = k*(w99*(om[9, 9]*(sq(c9) + sq(c10)) + om[2, 2]*sq(c2) + (om[2, 9]*c2*co(c9)).real)
              + w79*(om[7, 9]*(c7*co(c9)).real + (om[2, 7]*C[2]*co(c7)).real) + w77*om[7, 7]*sq(c7))
    # the interference of O1 and O7: inclusive_log_qed_colour
    x = k*w79*(om[2, 7]*n('4/3')*C[1]*co(c7)).real
    d = got - want
    v.ensure('rate', v.eq((2*d - x)**2, x**2) if v.sym else v.or_(v.eq(d, x, scale=want), v.eq(d, 0, scale=want)))


@harness('C19', targets=[BX + 'Phill_logqed'], uses=[B_ + 'bxll_qed.wem'], max_paths=30)
def inclusive_log_qed_colour(v):
    """the current-current operators enter the logarithmic QED corrections in the combination C2 + 4/3 C1"""
    q, lep = v.choice('q', ['s', 'd']), v.choice('lepton', ['e', 'mu'])
    s, mb, ml, mc = (v.real(n, pos=True, dom=d) for n, d in (('s', (0.05, 0.3)), ('mb', (4.5, 5)), ('ml', (0.001, 0.1)), ('mc', (1.3, 1.7))))
    als, ale = v.real('alpha_s', pos=True, dom=(0.1, 0.3)), v.real('alpha_e', pos=True, dom=(0.007, 0.008))
    om = {}
    def wem(I, i, j, sh, mb, ml, scale, mc):
        if (i, j) not in om:
            om[i, j] = v.cplx('omega%d%d' % (i, j)) if i == 2 and j != 2 else v.real('omega%d%d' % (i, j), dom=(-3, 3))
        return om[i, j]
    v.setattr(bxll, 'wem', wem)
    n = v.num
    for j, name in ((1, 'square'), (9, 'O9'), (7, 'O7')):
        C, wc = xwc(v, q, lep, (1, 2, j))
        c1, c2 = 'C1_b' + q, 'C2_b' + q
        got = [bxll.Phill_logqed('BR', s, mb, ml, als, ale, w, q, lep, mc) for w in (wc, dict(wc, **{c2: C[2] + n('4/3')*C[1], c1: v.num(0)}))]
        v.ensure('colour factors: ' + name, v.eq(*got))


@harness('C19', targets=[BX + 'inclusive_wc', BX + 'sigma', BX + 'sigma7', BX + 'sigma9'],
         uses=[ME + f for f in ('Y', 'Yu', 'delta_C7', 'delta_C9')] + [W + 'wctot_dict', 'flavio.math.functions.li2'], max_paths=10)
def inclusive_wc(v):
    """effective coefficients of the inclusive rates: universal virtual and soft radiation multiplies the tree-level amplitudes, quark loops are added to
    the vector and dipole amplitudes only, scalar operators of both chiralities are made dimensionless with the same mass"""
    q, lep = v.choice('q', ['s', 'd']), v.choice('lepton', LEP)
    qq = 'b' + q
    phys.ckm_contract(v)
    phys.masses_contract(v)
    par = v.par()
    names = ['C7eff_' + qq, 'C7effp_' + qq] + ['C%s_%s%s' % (n, qq, 2*lep) for n in ('9', '9p', '10', '10p', 'S', 'Sp', 'P', 'Pp')]
    wc = {n: v.cplx('tot.' + n) for n in names}
    mu = config['renormalization scale']['bxll']
    v.setattr(wilsoncoefficients, 'wctot_dict', lambda wc_obj, sector, scale, par, nf_out=None: dict(wc) if (sector, scale, nf_out) == (qq + 2*lep, mu, 5) else None)
    q2, mb = v.real('q2', pos=True, dom=(1, 18)), v.real('mb', pos=True, dom=(4.5, 5))
    v.assume_(v.gt(mb*mb, q2))
    x2 = q2
    fY = {n: v.cplx(n) for n in ('Y', 'Yu', 'delta_C7', 'delta_C9')}
    for n in ('Y', 'Yu'):
        v.setattr(matrixelements, n, lambda q2, wc, par, scale, qiqj, n=n: fY[n] if (scale, qiqj) == (mu, qq) and q2 is x2 else None)
    for n in ('delta_C7', 'delta_C9'):
        v.setattr(matrixelements, n, lambda par, wc, q2, scale, qiqj, n=n: fY[n] if (scale, qiqj) == (mu, qq) and q2 is x2 else None)
    v.setattr(bxll, 'li2', lambda x: v.ufc('li2', x).real)
    r = bxll.inclusive_wc(q2, None, par, q, lep, mb)
    n = v.num
    s, als = q2/mb**2, running.get_alpha(par, mu)['alpha_s']
    common = -n('4/3')*bxll.li2(s) - n('2/3')*v.flog(s)*v.flog(1 - s) - n('2/9')*v.pi**2 - v.flog(1 - s) - n('2/9')*(1 - s)*v.flog(1 - s)
    b9 = 1 + als/v.pi*(common + n('3/2'))
    b7 = 1 + als/v.pi*(common + n('1/6') - n('8/3')*v.flog(mu/mb))
    xi = [ckm.xi(u, qq)(par) for u in 'ut']
    m = running.get_mb(par, mu)
    g = lambda x: wc['C%s_%s%s' % (x, qq, 2*lep)]
    want = {'7': wc['C7eff_' + qq]*b7 + fY['delta_C7'], '7p': wc['C7effp_' + qq]*b7, 'v': g('9')*b9 + fY['delta_C9'] + fY['Y'] + xi[0]/xi[1]*fY['Yu'],
            'vp': g('9p')*b9, 'a': g('10')*b9, 'ap': g('10p')*b9, 's': m*g('S'), 'sp': m*g('Sp'), 'p': m*g('P'), 'pp': m*g('Pp'), 't': 0, 'tp': 0}
    for k, x in want.items():
        v.ensure(k, v.eq(r['wc_eff'][k], x))
    v.ensure('names', set(r['wc_eff']) == set(want) and r['wc'] == wc if not v.sym else set(r['wc_eff']) == set(want))


@harness('C19', targets=[BX + f for f in ('bxll_br_prefactor', 'bxll_parameters', 'f_u', '_bxll_dbrdq2_unnorm', '_bxll_dbrdq2', 'bxll_dbrdq2', '_bxll_afb_num', 'bxll_afb_num',
                                          'bxll_afb_den', 'bxll_afb', 'bxll_dbrdq2_func', 'bxll_afb_func')],
         uses=[BX + f for f in ('inclusive_wc', 'f_ll', 'f_ll_ha', 'Phill_logqed', 'Phill_pc_mb2')], max_paths=200, time_limit=250)
def inclusive_rates(v):
    """B -> X l l rates: leading rates of both chiralities plus QED and power corrections, normalised to the semileptonic decays; zero outside the physical
    range; average over electrons and muons; asymmetry is the ratio of the antisymmetric and the total rate with the same corrections"""
    q, lep = v.choice('q', ['s', 'd']), v.choice('lepton', ['e', 'tau', 'l'])
    phys.ckm_contract(v)
    phys.masses_contract(v)
    mbp, mcp = (v.real(n, pos=True, dom=d) for n, d in (('mb', (4.5, 5)), ('mc', (1.4, 1.8))))
    v.contract(running.get_mb_pole, lambda par: mbp)
    v.contract(running.get_mc_pole, lambda par: mcp)
    par = v.par()
    if not v.sym:
        mbp, mcp = running.get_mb_pole(par), running.get_mc_pole(par)
    wq2 = v.choice('region', ['low', 'high', 'below', 'above'])
    q2 = v.real('q2', pos=True, dom={'low': (1., 7.), 'high': (15., 18.), 'below': (1e-8, 2e-7), 'above': (26., 30.)}[wq2])
    lo, hi = {'low': (1, 7), 'high': (15, 18), 'below': (0, 7), 'above': (20, 40)}[wq2]
    v.assume_(v.and_(v.ge(q2, lo), v.le(q2, hi)))
    leps = ['e', 'mu'] if lep == 'l' else [lep]
    above = [v.and_(v.ge(q2, 4*par['m_' + l]**2), v.le(q2, mbp**2)) for l in leps]
    if wq2 == 'below':
        for l in leps:
            v.assume_(v.gt(4*par['m_' + l]**2, q2))
    elif wq2 == 'above':
        v.assume_(v.gt(q2, mbp**2))
    else:
        if lep == 'tau' and wq2 == 'low':
            return
        for a in above:
            v.assume_(a)
    eff = lambda l: {k: v.cplx('eff.%s.%s' % (k, l)) for k in ('7', '7p', 'v', 'vp', 'a', 'ap', 's', 'sp', 'p', 'pp')}
    obj, tok = object(), {l: object() for l in LEP}
    qt = q
    v.setattr(bxll, 'inclusive_wc', lambda q2, wc_obj, par, q, lep, mb: {'wc_eff': eff(lep), 'wc': tok[lep]} if wc_obj is obj and q == qt else None)
    num = lambda c: [c] if not hasattr(c, 'imag') else [c.real, c.imag]
    v.setattr(bxll, 'f_ll', lambda sh, mlh, alpha_s, C7t, C9t, C10t, CS, CP: v.uf('f_ll', sh, mlh, alpha_s, *sum(map(num, (C7t, C9t, C10t, CS, CP)), [])))
    v.setattr(bxll, 'f_ll_ha', lambda sh, mlh, alpha_s, wc_eff: v.uf('f_ll_ha', sh, mlh, alpha_s, *sum((num(wc_eff[k]) for k in sorted(wc_eff)), [])))
    v.setattr(bxll, 'Phill_logqed', lambda I, sh, mb, ml, alpha_s, alpha_e, wc, q, lep, mc: v.uf('qed', I, sh, mb, ml, alpha_s, alpha_e, mc, q, lep) if wc is tok[lep] else None)
    v.setattr(bxll, 'Phill_pc_mb2', lambda I, sh, l1, l2, mb, wc, q, lep: v.uf('pc', I, sh, l1, l2, mb, q, lep) if wc is tok[lep] else None)
    mu = config['renormalization scale']['bxll']
    al = running.get_alpha(par, mu)
    als, ale, n = al['alpha_s'], al['alpha_e'], v.num
    l1, l2 = par['lambda_1'], par['lambda_2']
    s = q2/mbp**2

    def rate(l, qed=True, ha=False, pc=True):
        ml, w = par['m_' + l], eff(l)
        if ha:
            r = bxll.f_ll_ha(s, ml/mbp, als, w)
        else:
            r = sum(bxll.f_ll(s, ml/mbp, als, *(w[k + c] for k in '7vasp')) for c in ('', 'p'))
        if qed:
            r = r + bxll.Phill_logqed('A' if ha else 'BR', s, mbp, ml, als, ale, tok[l], q, l, mcp)
        return r + sum(bxll.Phill_pc_mb2(i, s, l1, l2, mbp, tok[l], q, l) for i in (('A',) if ha else 'TL')) if pc else r

    def unc(l):
        return 1 + par['delta_BX%s%s %s' % (q, 2*l, wq2)]
    mean = lambda f: sum(f(l) for l in leps)/len(leps)
    br = bxll.bxll_dbrdq2_func(q, lep)(obj, par, q2)
    if wq2 in ('below', 'above'):
        v.ensure('unphysical', v.eq(br, 0))
        if lep != 'tau':
            v.ensure('unphysical asymmetry', v.eq(bxll.bxll_afb_func(q, lep)(obj, par, q2), 0))
        return
    phi1 = -n('8/3')*(v.pi**2 - n('25/4'))
    fu = 1 + als/(4*v.pi)*phi1 + ale/als*n('12/23')*(1 - als/par['alpha_s']) + (l1 - 9*l2)/(2*mbp**2)
    ckm2 = sq(ckm.xi('t', 'b' + q)(par))/sq(ckm.get_ckm(par)[1, 2])
    N = (ale/(2*v.pi*mbp))**2*par['BR(B->Xcenu)_exp']/par['C_BXlnu']*ckm2
    v.ensure('branching ratio', v.eq(br*fu, N*mean(lambda l: rate(l)*unc(l))))
    if lep == 'tau':
        return
    nu, de = bxll.bxll_afb_num(q2, obj, par, q, lep), bxll.bxll_afb_den(q2, obj, par, q, lep)
    v.ensure('antisymmetric rate', v.eq(nu, n('3/4')*mean(lambda l: rate(l, wq2 == 'low', True)*unc(l))))
    v.ensure('total rate', v.eq(de, mean(lambda l: rate(l, wq2 == 'low'))))
    v.ensure('without corrections', v.and_(v.eq(bxll.bxll_afb_den(q2, obj, par, q, lep, include_qed=False, include_pc=False), mean(lambda l: rate(l, False, False, False))),
                                           v.eq(bxll.bxll_afb_num(q2, obj, par, q, lep, include_qed=False, include_pc=False), n('3/4')*mean(lambda l: rate(l, False, True, False)*unc(l)))))
    v.assume_(v.not_(v.eq(de, 0)))
    v.ensure('asymmetry', v.eq(bxll.bxll_afb_func(q, lep)(obj, par, q2)*de, nu))


@harness('C19', targets=[BX + f for f in ('bxll_br_int', 'bxll_br_int_func', 'bxll_br_int_ratio_func', 'bxll_afb_num_int', 'bxll_afb_den_int', 'bxll_afb_int_func')],
         uses=[BX + f for f in ('bxll_dbrdq2', 'bxll_afb_num', 'bxll_afb_den')], max_paths=60)
def inclusive_bins(v):
    """binned inclusive observables: integral of the rate, integral of numerator over integral of denominator; zero for bins without events"""
    q, lep = v.choice('q', ['s', 'd']), v.choice('lepton', ['mu', 'tau', 'l'])
    quad = phys.integral_contract(v)
    empty = v.boolean('empty')
    fs = {n: (lambda x, o, p, qq, l, n=n: 0*x if empty and n != 'afb_den' else v.uf(n, x, qq, l) if p is par else None) for n in ('dbrdq2', 'afb_num', 'afb_den')}
    for n, f in fs.items():
        v.setattr(bxll, 'bxll_' + n, (lambda f: lambda q2, wc_obj, par, q, lep, **k: f(q2, wc_obj, par, q, lep))(f if v.sym else lambda x, o, p, qq, l, n=n: 0.*x if empty and n != 'afb_den' else x + len(n + l + qq)))
    par, wc, lo, hi = v.par(), phys.wcs(v), v.real('lo', pos=True, dom=(1, 3)), v.real('hi', pos=True, dom=(4, 6))
    v.assume_(v.gt(hi, lo))
    i = lambda n, l: quad(lambda x: getattr(bxll, 'bxll_' + n)(x, wc, par, q, l), lo, hi)
    name = 'B->X%s%s' % (q, 2*lep)
    v.ensure('<BR>', v.eq(pred('<BR>(%s)' % name, par, wc, lo, hi), i('dbrdq2', lep)))
    if empty:
        if lep != 'tau':
            v.ensure('empty <AFB>', v.eq(pred('<AFB>(%s)' % name, par, wc, lo, hi), 0))
        v.ensure('empty ratio', v.eq(pred('<Rmue>(B->X%sll)' % q, par, wc, lo, hi), 0))
        return
    if lep != 'tau':
        v.assume_(v.not_(v.eq(i('afb_den', lep), 0)))
        v.ensure('<AFB>', v.eq(pred('<AFB>(%s)' % name, par, wc, lo, hi)*i('afb_den', lep), i('afb_num', lep)))
    for a, b in (('mu', 'e'), ('tau', 'mu')):
        v.assume_(v.not_(v.eq(i('dbrdq2', b), 0)))
        v.ensure('<R%s%s>' % (a, b), v.eq(pred('<R%s%s>(B->X%sll)' % (a, b, q), par, wc, lo, hi)*i('dbrdq2', b), i('dbrdq2', a)))


XQ = B_ + 'bxll_qed.'


@harness('C19', targets=[BX + f for f in ('tau77', 'tau79', 'tau99', 'tau710', 'tau910', 'f7', 'f9', 'sigma9', 'sigma')] + [XQ + 'wem'] +
         [XQ + 'wem_%s_%s' % (i, r) for i in ('22', '27', '29', '77', '79', '99') for r in ('low', 'HL_low', 'HT_low')], level='bounded', native_only=True, native_n=8,
         note='sampled momentum transfers, run time only; the coefficients of the fits are data of the cited papers')
def inclusive_functions(v):
    """radiative corrections to the inclusive rates: soft radiation is universal at the endpoint; the QCD corrections integrate to those of B -> X_u l nu;
    logarithms of the lepton mass integrate to zero; QED corrections of both polarisations add up to those of the rate, real and imaginary parts"""
    T = {n: getattr(bxll, 'tau' + n) for n in ('77', '79', '99', '710', '910')}
    e = v.real('endpoint', pos=True, dom=(1e-4, 1e-3))
    for n in ('77', '79', '99'):
        v.ensure('endpoint tau' + n, bool(abs(T[n](1 - e)) < 2*e))
    v.ensure('endpoint tau710, tau910', bool(abs(T['710'](1 - e) - T['910'](1 - e)) < 4*e**0.5*0.1 and abs(T['710'](1 - e)) < 0.1))
    # no poles or jumps inside the physical region
    s = v.real('s', pos=True, dom=(0.06, 0.9))
    for n, f in T.items():
        y = [f(s + k*0.02) for k in (-2, -1, 0, 1, 2)]
        v.ensure('smooth tau' + n, bool(abs(y[2] - (4*(y[1] + y[3]) - y[0] - y[4])/6) < 1e-3))
    w = lambda x: (1 - x)**2*(1 + 2*x)
    I = lambda f: scipy.integrate.quad(f, 0, 1)[0]
    v.ensure('QCD corrections', bool(abs(I(lambda x: w(x)*(2*bxll.sigma9(x) + T['99'](x)))/I(w) + 2/3*(np.pi**2 - 25/4)) < 1e-4))
    mb, ml, mc, mu = 4.8, v.choice('ml', [0.000511, 0.105]), 1.6, v.real('mu', pos=True, dom=(2.5, 7))
    om = lambda o, i, j, x: bxll_qed.wem(o, i, j, x, mb, ml, mu, mc)
    # the constant part does not depend on the lepton mass
    log9 = lambda x: bxll_qed.wem('BR', 9, 9, x, mb, ml, mu, mc) - bxll_qed.wem('BR', 9, 9, x, mb, mb, mu, mc)
    k = lambda f: (scipy.integrate.quad(f, 1e-7, 0.5)[0] + scipy.integrate.quad(f, 0.5, 1)[0])/np.log(mb**2/ml**2)
    v.ensure('logarithms O9', bool(abs(k(lambda x: w(x)*log9(x))) < 1e-3))
    v.ensure('logarithms O7 O9', bool(abs(k(lambda x: (1 - x)**2*om('BR', 7, 9, x))) < 1e-3))
    for i, j in ((2, 2), (2, 7), (2, 9), (7, 7), (7, 9), (9, 9)):
        k = tuple(max(x, 7) if x != 2 else {7: 9, 9: 9, 2: 9}[x] for x in (i, j))
        k = {(2, 2): (9, 9), (2, 7): (7, 9), (2, 9): (9, 9)}.get((i, j), (i, j))
        r = v.real('s%d%d' % (i, j), pos=True, dom=(0.05, 0.24))
        sig = lambda o: bxll.sigmaij_I(o, *k, r)
        a = sum(sig(o)*om(o, i, j, r) for o in 'TL')
        b = om('BR', i, j, r) if (i, j) != (9, 9) else log9(r)
        scale = sig('T')*abs(om('T', i, j, r)) + sig('L')*abs(om('L', i, j, r))
        b = b*sig('BR')
        v.ensure('T + L %d%d' % (i, j), bool(abs(np.real(a - b)) < 0.02*scale and abs(np.imag(a - b)) < 0.02*scale))


# ------------------------------------------------------------------ QCD factorisation
QF = B_ + 'bvll.qcdf.'
QMODES = {('B0', 'K*0'): ('bs', 'd'), ('B+', 'K*+'): ('bs', 'u'), ('Bs', 'phi'): ('bs', 's'), ('Bs', 'K*0'): ('bd', 's')}


def qcdf_setup(v):
    mode = v.choice('mode', sorted(QMODES))
    qq, spec = QMODES[mode]
    phys.ckm_contract(v)
    phys.masses_contract(v)
    mb, mc = (v.real(n, pos=True, dom=d) for n, d in (('mb', (4.5, 5)), ('mc', (1.4, 1.8))))
    v.contract(running.get_mb_pole, lambda par: mb)
    v.contract(running.get_mc_pole, lambda par: mc)
    par = v.par()
    if not v.sym:
        mb, mc = running.get_mb_pole(par), running.get_mc_pole(par)
    wc = {'C%s_%s' % (n, qq): v.cplx('C' + n) for n in ('1', '2', '3', '4', '5', '6', '8eff')}
    C = {n: wc['C%s_%s' % (n, qq)] for n in ('1', '2', '3', '4', '5', '6', '8eff')}
    return mode, qq, spec, mb, mc, par, wc, C


@harness('C19', targets=[QF + f for f in ('T_perp_plus_O8', 'T_para_minus_O8', 'T_perp_plus_QSS', 'T_para_plus_QSS', 'T_para_minus_QSS', 'get_input', 'Cq34', 'T_para_minus_WA',
                                          'T_perp_WA_PowC_1', 'T_perp_WA_PowC_2')], uses=[QF + 't_perp', QF + 't_para', ME + 'h'], max_paths=60, z3_ms=5000)
def qcdf_kernels(v):
    """spectator scattering and annihilation: quark loops with the charge of the loop quark (photon from the loop) or of the spectator, coefficients of the Fierz-
    symmetric operator basis, gluon dipole, and the same loops with the CKM factor of the up quark and the difference of massive and massless quarks"""
    mode, qq, spec, mb, mc, par, wc, C = qcdf_setup(v)
    B, V = mode
    n = v.num
    q2, u, mu = v.real('q2', pos=True, dom=(1, 6)), v.real('u', pos=True, dom=(0.1, 0.9)), v.real('mu', pos=True, dom=(3, 5))
    v.assume_(v.gt(1, u))
    for name in ('t_perp', 't_para'):
        v.setattr(qcdf, name, lambda q2, u, mq, par, B, V, name=name: v.ufc(name, q2, u, mq, par['m_' + B], par['m_' + V]))
    v.setattr(matrixelements, 'h', lambda s, mq, mu: v.ufc('h', s, mq, mu))
    mB, als = par['m_' + B], running.get_alpha(par, mu)['alpha_s']
    eps = ckm.xi('u', qq)(par)/ckm.xi('t', qq)(par)
    eq = n('2/3') if spec == 'u' else -n('1/3')
    eu, ed = n('2/3'), -n('1/3')
    # current-current and penguin operators in the basis of left- and right-handed quark currents with crossed and uncrossed colour indices
    c2 = C['2'] - C['1']/6
    c3, c4 = C['3'] - C['4']/6 + 16*C['5'] - n('8/3')*C['6'], C['4']/2 + 8*C['6']
    c5, c6 = C['3'] - C['4']/6 + 4*C['5'] - n('2/3')*C['6'], C['4']/2 + 2*C['6']
    k = als/(3*v.pi)
    T = lambda name, **a: getattr(qcdf, 'T_' + name)(q2, par, wc, B, V, scale=mu, **a)
    v.ensure('dipole, perpendicular', v.eq(T('perp_plus_O8', u=u)*(u + (1 - u)*q2/mB**2), -4*k*ed*C['8eff']))
    v.ensure('dipole, parallel', v.eq(T('para_minus_O8', u=u)*((1 - u) + u*q2/mB**2), 8*k*eq*C['8eff']))
    t = {x: [getattr(qcdf, 't_' + x)(q2, u, m, par, B, V) for m in (mc, mb, 0)] for x in ('perp', 'para')}
    cc, cb = c2 + c4 - c6, c3 + c4 - c6
    loop = lambda t, cb: eu*t[0]*cc + ed*t[1]*cb + ed*t[2]*c3 + eps*eu*(t[0] - t[2])*c2
    v.ensure('loops, parallel', v.eq(T('para_plus_QSS', u=u), k*mB/mb*loop(t['para'], cb)))
    v.ensure('loops, perpendicular', v.eq(T('perp_plus_QSS', u=u), k*mB/(2*mb)*loop(t['perp'], cb - mb/mB*c5)))
    s = (1 - u)*mB**2 + u*q2
    h = [matrixelements.h(s, m, mu) for m in (mc, mb, 0)]
    v.ensure('loops, spectator', v.eq(T('para_minus_QSS', u=u), 6*k*eq*mB/mb*(h[0]*(c2 + c4 + c6) + h[1]*(c3 + c4 + c6) + h[2]*(c3 + 3*c4 + 3*c6)
                                                                            - n('8/27')*(c3 - c5 - 15*c6) + eps*(h[0] - h[2])*c2)))
    # annihilation: colour singlet projections of the currents
    pen = c3 + 3*c4
    singlet = C['3'] + 10*C['5']
    ann = {'K*+': pen - 3*eps*C['2'], 'K*0': pen, 'phi': pen + 6*singlet}[V]
    v.ensure('annihilation', v.eq(T('para_minus_WA'), -4*eq*mB/mb*ann))
    v.ensure('annihilation, power correction', v.eq(T('perp_WA_PowC_2'), 2*eq/mb*ann))
    v.ensure('penguin annihilation, power correction', v.eq(T('perp_WA_PowC_1'), -4*eq/mb*(c5 + 3*c6)))


@harness('C19', targets=[QF + f for f in ('T_perp', 'T_para', 'phiV', 'lB_plus', 'lB_minus', 'En_V')],
         uses=[QF + f for f in ('T_perp_plus_O8', 'T_para_minus_O8', 'T_perp_plus_QSS', 'T_para_plus_QSS', 'T_para_minus_QSS', 'T_para_minus_WA', 'T_perp_WA_PowC_1', 'T_perp_WA_PowC_2',
                               ) ] + ['flavio.math.functions.ei'], max_paths=60, z3_ms=5000, native_n=2)
def qcdf_convolutions(v):
    """spectator scattering: hard kernels convoluted with the distribution amplitude of the vector meson and the moment of that of the B meson, each
    contribution switched on and off by its own flag"""
    mode, qq, spec, mb, mc, par, wc, C = qcdf_setup(v)
    B, V = mode
    n = v.num
    q2, mu = v.real('q2', pos=True, dom=(1, 6)), v.real('mu', pos=True, dom=(3, 5))
    mB, mV = par['m_' + B], par['m_' + V]
    v.assume_(v.gt(mB, mb))
    v.assume_(v.gt(mB**2, q2))
    quad = phys.integral_contract(v)
    fperp = v.real('f_perp', pos=True, dom=(0.1, 0.3))
    v.setattr(running, 'get_f_perp', lambda par, meson, scale: fperp if meson == V else None)
    v.setattr(qcdf, 'ei', lambda x: v.uf('ei', x))
    if hasattr(qcdf, 'eval_gegenbauer'):
        v.setattr_sym(qcdf, 'eval_gegenbauer', lambda k, a, x: {0: 1, 1: 2*a*x, 2: 2*a*(1 + a)*x*x - a}[k])
    K = {}
    for name in ('perp_plus_O8', 'para_minus_O8', 'perp_plus_QSS', 'para_plus_QSS', 'para_minus_QSS'):
        K[name] = lambda u, name=name: v.ufc(name, u) if v.sym else (1 + u)*len(name) + 1j*u*u
        v.setattr(qcdf, 'T_' + name, lambda q2, par, wc, B, V, u, scale, name=name: K[name](u))
    for name in ('para_minus_WA', 'perp_WA_PowC_1', 'perp_WA_PowC_2'):
        K[name] = v.cplx('T.' + name)
        v.setattr(qcdf, 'T_' + name, lambda q2, par, wc, B, V, scale, name=name: K[name])
    fl = v.choice('contributions', ['111', '100', '010', '001', '000'])
    on = {'include_' + k: x == '1' for k, x in zip(('WA', 'O8', 'QSS'), fl)}
    if fl == '000':
        for f in (qcdf.T_perp, qcdf.T_para):
            v.ensure('none', raises(lambda: f(q2, par, wc, B, V, mu, **on)))
        return
    W, O, Q = (1 if x == '1' else 0 for x in fl)

    def phi(u, k):
        x = 2*u - 1
        return 6*u*(1 - u)*(1 + 3*par['a1_%s_%s' % (k, V)]*x + n('3/2')*par['a2_%s_%s' % (k, V)]*(5*x*x - 1))
    w0 = n('2/3')*(mB - mb)
    y = q2/mB/w0
    minv = v.fexp(-y)/w0*(-qcdf.ei(y) + v.i()*v.pi)
    E = (mB**2 + mV**2 - q2)/(2*mB)
    NB = v.pi**2/3*par['f_' + B]/mB
    cq = lambda f: quad(lambda u: f(u).real, 0, 1) + v.i()*quad(lambda u: f(u).imag, 0, 1)
    para = NB*par['f_' + V]*mV/E*cq(lambda u: phi(u, 'para')*(Q*K['para_plus_QSS'](u)/w0 + minv*(W*K['para_minus_WA'] + O*K['para_minus_O8'](u) + Q*K['para_minus_QSS'](u))))
    v.ensure('parallel', v.eq(qcdf.T_para(q2, par, wc, B, V, mu, **on), para, tol=1e-4))
    perp = NB*fperp*cq(lambda u: phi(u, 'perp')*((O*K['perp_plus_O8'](u) + Q*K['perp_plus_QSS'](u))/w0 + W*K['perp_WA_PowC_1']/(1 - u + u*q2/mB**2)))
    perp = perp + W*NB*par['f_' + V]*mV/w0/(1 - q2/mB**2)*K['perp_WA_PowC_2']
    v.ensure('perpendicular', v.eq(qcdf.T_perp(q2, par, wc, B, V, mu, **on), perp, tol=1e-4))


@harness('C19', targets=[QF + 'transversity_amps_qcdf', QF + 'helicity_amps_qcdf', B_ + 'angular.transversity_to_helicity'], uses=[QF + 'T_perp', QF + 'T_para', BA + 'prefactor'], max_paths=20)
def qcdf_amplitudes(v):
    """spectator scattering enters the helicity amplitudes like corrections of the electromagnetic dipole form factors at large recoil: left-handed light quarks only,
    no axial vector amplitude"""
    mode, qq, spec, mb, mc, par, wc, C = qcdf_setup(v)
    B, V = mode
    q2 = v.real('q2', pos=True, dom=(1, 6))
    mB, mV = par['m_' + B], par['m_' + V]
    v.assume_(v.gt(6, q2))
    v.assume_(v.gt(mB - mV, v.fsqrt(q2)))
    N, Tp, Tl = v.cplx('N'), v.cplx('T_perp'), v.cplx('T_para')
    mu = config['renormalization scale']['bvll']
    v.setattr(bvamp, 'prefactor', lambda q2, par, B, V: N)
    v.setattr(qcdf, 'T_perp', lambda q2, par, wc, B, V, scale, **k: Tp if scale == mu else None)
    v.setattr(qcdf, 'T_para', lambda q2, par, wc, B, V, scale, **k: Tl if scale == mu else None)
    d = mB**2 - q2
    ff = {'T1': d/v.fsqrt(lambda_K(mB**2, mV**2, q2))*Tp, 'T2': d/(mB**2 - mV**2)*Tp, 'T23': -d**2*(mB + mV)/(8*mB**3*mV**2)*Tl, 'A0': 0, 'A1': 0, 'A12': 0, 'V': 0}
    want = angular.helicity_amps_v(q2, mB, mV, mb, 0, 0, 0, ff, dict({k + p: 0 for k in '7vaspt' for p in ('', 'p')}, **{'7': 1}), N)
    got = qcdf.helicity_amps_qcdf(q2, wc, par, B, V)
    for k in HV[:6]:
        # relative to the left-handed amplitude
        x = got['mi', 'V'] if k[0] == 'pl' else 0
        v.ensure(key(k), v.eq(got[k] + x, want[k] + x))


@harness('C19', targets=[QF + f for f in ('t_perp', 't_para', 'B0', 'B0diffBFS', 'i1_bfs', 'L1')], level='bounded', native_only=True, native_n=8,
         note='sampled momentum transfers, momentum fractions and masses, run time only')
def qcdf_loops(v):
    """loop functions of spectator scattering: Feynman parameter integrals above and below threshold, massless limit, zero momentum transfer"""
    q2, u, m = v.real('q2', pos=True, dom=(1, 6)), v.real('u', pos=True, dom=(0.1, 0.9)), v.choice('m', [0.5, 1.2, 1.5, 4.8])
    mB, mV = 5.28, 0.9
    par = {'m_B0': mB, 'm_K*0': mV}
    s, ub = (1 - u)*mB**2 + u*q2, 1 - u
    cq = lambda f: scipy.integrate.quad(lambda x: f(x).real, 0, 1, limit=400)[0] + 1j*scipy.integrate.quad(lambda x: f(x).imag, 0, 1, limit=400)[0]
    lg = lambda s, m: lambda x: np.log(1 - x*(1 - x)*s/m**2 - 1e-9j)
    B = lambda s, m: -2 - cq(lg(s, m))
    C = lambda s, m: cq(lambda x: lg(s, m)(x)/x)
    i1 = 1 + 2*m*m/(ub*(mB**2 - q2))*(C(s, m) - C(q2, m))
    E = (mB**2 - q2 + mV**2)/(2*mB)
    b = B(s, m) - B(q2, m)
    close = lambda a, b: bool(abs(a - b) < 1e-3*(1 + abs(b)))
    v.ensure('B0', close(qcdf.B0(s, m), B(s, m)))
    v.ensure('I1', close(qcdf.i1_bfs(q2, u, m, mB), i1))
    v.ensure('t_perp', close(qcdf.t_perp(q2, u, m, par, 'B0', 'K*0'), 2*mB/(ub*E)*i1 + q2/(ub*E)**2*b))
    v.ensure('t_para', close(qcdf.t_para(q2, u, m, par, 'B0', 'K*0'), 2*mB/(ub*E)*i1 + s/(ub*E)**2*b))
    for n in ('t_perp', 't_para'):
        f = getattr(qcdf, n)
        v.ensure(n + ', massless', close(f(q2, u, 0, par, 'B0', 'K*0'), f(q2, u, 1e-3, par, 'B0', 'K*0')))
    z = {'m_B0': mB, 'm_K*0': 1e-4}
    v.ensure('t_perp, real photon', close(qcdf.t_perp(0, u, m, z, 'B0', 'K*0'), qcdf.t_perp(1e-5, u, m, z, 'B0', 'K*0')))
