"""C21 neutrino, radiative, baryonic and kaon rare decays with arbitrary new physics"""
from vf.api import harness
from vf import phys
import flavio
import warnings
import numpy as np
from flavio.classes import Observable, AuxiliaryQuantity
from flavio.physics import ckm, mesonmixing
from flavio.physics.common import conjugate_par
from flavio.physics.running import running
from flavio.physics.bdecays import wilsoncoefficients, matrixelements, bvgamma, bxgamma, lambdablambdall, lambdablambda1520ll, bllgamma
from flavio.physics.bdecays.bvll import amplitudes as bvamp
from flavio.physics.bdecays.common import meson_quark, meson_ff
from flavio.physics.kdecays import kpinunu, kll, kpipi
from flavio.physics.kdecays import wilsoncoefficients as kwc
from flavio.config import config

B_ = 'flavio.physics.bdecays.'
K_ = 'flavio.physics.kdecays.'
W = B_ + 'wilsoncoefficients.'
warnings.filterwarnings('ignore', message='The prediction')
warnings.filterwarnings('ignore', message='The QCDF')
LEP = ('e', 'mu', 'tau')
NU = ('nue', 'numu', 'nutau')


def sq(z):
    return z.real**2 + z.imag**2


def co(z):
    return z.conjugate()


def pred(name, par, wc, *a):
    return Observable[name].prediction_par(par, wc, *a)


def lam(a, b, c):
    return a**2 + b**2 + c**2 - 2*(a*b + b*c + a*c)


# ------------------------------------------------------------------ B -> P nu nu, B -> V nu nu
PMODE = {'B0->K': ('B0', 'K0'), 'B+->K': ('B+', 'K+'), 'B0->pi': ('B0', 'pi0'), 'B+->pi': ('B+', 'pi+')}
VMODE = {'B0->K*': ('B0', 'K*0'), 'B+->K*': ('B+', 'K*+'), 'B+->rho': ('B+', 'rho+'), 'B0->rho': ('B0', 'rho0')}


def ff_contract(v):
    phys.ff_contract(v)


def cl_contract(v):
    v.contract(wilsoncoefficients.CL_SM, lambda par, scale: v.uf('CL_SM', scale))
    return wilsoncoefficients.CL_SM


def nunu_ref(v, par, wc, B, M, q2):
    """rates summed over the nine flavour combinations: total and longitudinal.
    dG/dq2 = GF^2 alpha^2 |xi_t|^2 sqrt(lambda) q2 / (768 pi^5 mB^3) sum |H|^2 (factors 1/2 not included)"""
    vec = (B, M) in VMODE.values()
    scale = config['renormalization scale']['bvll' if vec else 'bpll']
    qq = meson_quark[B, M]
    al, xi = running.get_alpha(par, scale)['alpha_e'], ckm.xi('t', qq)(par)
    mB, mM = par['m_' + B], par['m_' + M]
    la = lam(mB**2, mM**2, q2)
    s = v.fsqrt(la)
    f = AuxiliaryQuantity[meson_ff[B, M] + ' form factor'].prediction(par_dict=par, wc_obj=None, q2=q2)
    N = par['GF']**2*al**2*sq(xi)*s*q2/(768*v.pi**5*mB**3)
    tot = lng = 0
    for n1 in NU:
        for n2 in NU:
            k = qq + n1 + n2
            d = wc.get_wc(k, scale, par)
            L, R = d['CL_' + k], d['CR_' + k]
            if n1 == n2:
                L = L + wilsoncoefficients.CL_SM(par, scale)
            if not vec:
                tot = tot + sq(L + R)*la*f['f+']**2/q2
            else:
                h0 = sq(L - R)*(8*mB*mM*f['A12'])**2/q2
                lng = lng + h0
                tot = tot + h0 + 2*sq(L - R)*((mB + mM)*f['A1'])**2 + 2*sq(L + R)*la*f['V']**2/(mB + mM)**2
    return N*tot, N*lng


def nu_setup(v, mode):
    B, M = {**PMODE, **VMODE}[mode]
    phys.ckm_contract(v)
    phys.masses_contract(v)
    ff_contract(v)
    cl_contract(v)
    par, wc = v.par(), phys.wcs(v, scale=0.3)
    v.assume_(v.gt(par['m_' + B], par['m_' + M]))
    return B, M, par, wc


@harness('C21', targets=[B_ + 'bpnunu.' + f for f in ('prefactor', 'get_ff', 'helicity_amps', 'bpnunu_obs', 'bpnunu_dbrdq2_summed', 'dbrdq2_summed')] +
         [B_ + 'bvnunu.' + f for f in ('prefactor', 'get_ff', 'helicity_amps', 'bvnunu_obs', 'bvnunu_dbrdq2_summed', 'bvnunu_fl_num_summed', 'bvnunu_fl_summed',
                                       'dbrdq2_summed', 'fl_summed')] + [W + 'get_wceff_nunu'],
         uses=[W + 'CL_SM', 'flavio.physics.ckm.get_ckm'], max_paths=60, time_limit=300, shard=('mode', 8))
def nunu_differential(v):
    """rate and longitudinal fraction of B -> P nu nubar and B -> V nu nubar: sum over nine flavour combinations, Standard Model in the diagonal ones only"""
    mode = v.choice('mode', [*PMODE, *VMODE])
    B, M, par, wc = nu_setup(v, mode)
    q2 = v.real('q2', pos=True, dom=(1, 15))
    v.assume_(v.gt((par['m_' + B] - par['m_' + M])**2, q2))
    tot, lng = nunu_ref(v, par, wc, B, M, q2)
    iso = v.num('1/2') if M in ('pi0', 'rho0') else 1
    v.ensure('rate', v.eq(pred('dBR/dq2(%snunu)' % mode, par, wc, q2), iso*par['tau_' + B]*tot))
    if 'K*' in mode:
        from flavio.physics.bdecays import bvnunu
        v.ensure('longitudinal rate', v.eq(bvnunu.bvnunu_fl_num_summed(q2, wc, par, B, M), lng, scale=tot))


@harness('C21', targets=[B_ + 'bvnunu.' + f for f in ('bvnunu_dbrdq2_summed', 'bvnunu_fl_num_summed', 'bvnunu_fl_summed', 'fl_summed')],
         uses=[B_ + 'bvnunu.bvnunu_obs'], max_paths=60, time_limit=300)
def nunu_fraction(v):
    """longitudinal fraction of B -> K* nu nubar: longitudinal rate over total rate, each summed over all flavour combinations"""
    from flavio.physics.bdecays import bvnunu
    mode = v.choice('mode', [m for m in VMODE if 'K*' in m])
    B, M, par, wc = nu_setup(v, mode)
    q2 = v.real('q2', pos=True, dom=(1, 15))
    if v.sym:
        v.contract(bvnunu.bvnunu_obs, lambda function, q2, wc_obj, par, B, V, nu1, nu2:
                   function({k: v.uf('J ' + k, q2, nu1, nu2) for k in ('1s', '1c', '2s', '2c', '6s', '6c', 'a', 'c')}))
        num = sum(-v.uf('J 2c', q2, a, b) for a in NU for b in NU)
    else:
        tot, num = nunu_ref(v, par, wc, B, M, q2)
    rate = pred('dBR/dq2(%snunu)' % mode, par, wc, q2)/par['tau_' + B]
    v.nonzero(rate)
    v.ensure('FL', v.eq(pred('FL(%snunu)' % mode, par, wc, q2)*rate, num, scale=rate))


@harness('C21', targets=[B_ + 'bpnunu.' + f for f in ('bpnunu_dbrdq2_int_summed', 'bpnunu_BRtot_summed', 'BRtot_summed', 'dbrdq2_int_summed')] +
         [B_ + 'bvnunu.' + f for f in ('bvnunu_dbrdq2_int_summed', 'bvnunu_fl_num_int_summed', 'bvnunu_fl_int_summed', 'bvnunu_BRtot_summed', 'BRtot_summed',
                                       'dbrdq2_int_summed', 'fl_int_summed')],
         uses=[B_ + 'bpnunu.bpnunu_obs', B_ + 'bvnunu.bvnunu_obs'], max_paths=60, time_limit=300, native_n=3)
def nunu_binned(v):
    """binned rates are averages over the bin, the total rate is the integral over the physical range, the binned polarisation a ratio of integrals"""
    from flavio.physics.bdecays import bpnunu, bvnunu
    mode = v.choice('mode', [*PMODE, *VMODE])
    B, M, par, wc = nu_setup(v, mode)
    if v.sym:
        def obs(function, q2, wc_obj, par, B, V, nu1, nu2):
            d = {k: v.uf('J ' + k, q2, nu1, nu2) for k in ('1s', '1c', '2s', '2c', 'a', 'c')}
            return function(d)
        v.contract(bpnunu.bpnunu_obs, obs)
        v.contract(bvnunu.bvnunu_obs, obs)
    quad = phys.integral_contract(v)
    x = v.real('x', pos=True, dom=(1, 5))
    y = x + v.real('w', pos=True, dom=(1, 5))
    o = lambda n, *a: pred('%s(%snunu)' % (n, mode), par, wc, *a)
    v.ensure('<dBR/dq2>', v.eq(o('<dBR/dq2>', x, y)*(y - x), quad(lambda q: o('dBR/dq2', q), x, y), tol=0.02))
    v.ensure('BR', v.eq(o('BR'), quad(lambda q: o('dBR/dq2', q), 0, (par['m_' + B] - par['m_' + M])**2), tol=0.02))
    if 'K*' in mode:
        if v.sym:
            num = quad(lambda q: bvnunu.bvnunu_fl_num_summed(q, wc, par, B, M), x, y)
        else:
            num = quad(lambda q: o('FL', q)*o('dBR/dq2', q)/par['tau_' + B], x, y)
        den = quad(lambda q: o('dBR/dq2', q)/par['tau_' + B], x, y)
        v.nonzero(den)
        v.ensure('<FL>', v.eq(o('<FL>', x, y)*den, num, tol=0.02))


@harness('C21', targets=[W + 'CL_SM'], uses=['flavio.physics.running.running.get_alpha'], max_paths=5, native_n=4)
def cl_sm(v):
    """the Standard Model coefficient times the electromagnetic coupling does not depend on the scale and equals -X_t/sin^2 theta_w alpha(mZ)"""
    phys.masses_contract(v)
    par = v.par()
    mu = v.real('mu', pos=True, dom=(2, 6))
    al = lambda s: running.get_alpha(par, s)['alpha_e']
    v.ensure('value', v.eq(wilsoncoefficients.CL_SM(par, mu)*al(mu)*par['s2w'], -par['Xt_di->djnunu']*al(91.1876)))


# ------------------------------------------------------------------ B -> V gamma
GMODE = {'B0->K*': ('B0', 'K*0'), 'B+->K*': ('B+', 'K*+'), 'Bs->phi': ('Bs', 'phi')}


def gamma_setup(v):
    phys.ckm_contract(v)
    phys.masses_contract(v)

    def tot(wc_obj, sector, scale, par, nf_out=5):
        d = {k: v.cplx('tot.' + k) for k in wilsoncoefficients.fcnclabels[sector]}
        d.update({k + sector[:2]: v.cplx('tot.' + k) for k in ('C7eff_', 'C8eff_', 'C7effp_', 'C8effp_')})
        return d
    v.contract(wilsoncoefficients.wctot_dict, tot)
    v.contract(matrixelements.delta_C7, lambda par, wc, q2, scale, qiqj: v.ufc('delta_C7', q2, scale, qiqj, wc['C8eff_' + qiqj], par['gamma']))
    keys = [(l, 'V') for l in ('0', 'pl', 'mi')]

    def aux(self, par_dict, wc_obj, *args, **kw):
        q2 = kw.get('q2', args[0] if args else None)
        if self.name.endswith('form factor'):
            return {k: v.uf('%s.%s' % (self.name, k), q2) for k in phys.ff_keys(self.name)}
        cp = kw.get('cp_conjugate', args[1] if len(args) > 1 else None)
        return {k: v.ufc('%s %s' % (self.name, k), q2, par_dict['gamma'], str(bool(cp))) for k in keys}
    v.contract(AuxiliaryQuantity.prediction, aux)
    return v.par(), phys.wcs(v, scale=0.3)


def gamma_amps(v, par, wc, B, V, cp):
    """left- and right-handed photon amplitudes in units where the rate is |A_L|^2 + |A_R|^2; the hadronic contributions to the helicity amplitudes
    of B -> V l l are continued to q2 -> 0 by the ratio of the photon pole terms"""
    qq = meson_quark[B, V]
    scale = config['renormalization scale']['bvgamma']
    p = conjugate_par(par) if cp else par
    tot = wilsoncoefficients.wctot_dict(wc, qq + 'ee', scale, par)
    if cp:
        tot = {k: co(x) for k, x in tot.items()}
    mB, mV, mb = par['m_' + B], par['m_' + V], running.get_mb(par, scale)
    xi = ckm.xi('t', qq)(p)
    T1 = AuxiliaryQuantity[meson_ff[B, V] + ' form factor'].prediction(par_dict=par, wc_obj=None, q2=0.)['T1']
    # Gamma = GF^2 alpha mb^2 mB^3/(32 pi^4) |xi_t|^2 (1 - mV^2/mB^2)^3 T1^2 (|C7|^2 + |C7'|^2)
    al = running.get_alpha(par, scale)['alpha_e']
    N = v.fsqrt((par['GF']**2*al*mB**3*mb**2)/(32*v.pi**4)*(1 - mV**2/mB**2)**3)*xi
    C7 = tot['C7eff_' + qq] + matrixelements.delta_C7(par=p, wc=tot, q2=0, scale=scale, qiqj=qq)
    L, R = N*C7*T1, N*tot['C7effp_' + qq]*T1
    q2 = 0.001
    ll = 4*par['GF']/v.fsqrt(2)*ckm.xi('t', qq)(par)*running.get_alpha(par, config['renormalization scale']['bvll'])['alpha_e']/(4*v.pi)
    r = (N/xi*ckm.xi('t', qq)(par))/ll/(2*v.i()*mb/q2*v.fsqrt(lam(mB**2, mV**2, q2)))
    for n in ('spectator scattering', 'subleading effects at low q2'):
        h = AuxiliaryQuantity['%s->%sll %s' % (B, V, n)].prediction(par_dict=par, wc_obj=wc, q2=q2, cp_conjugate=cp)
        L, R = L - r*h['mi', 'V'], R + r*h['pl', 'V']
    return (R, L) if cp else (L, R)


BG = B_ + 'bvgamma.'


@harness('C21', targets=[BG + f for f in ('prefactor', 'prefactor_helicityamps', 'amps_ff', 'amps_ss', 'amps_subleading', 'amps', 'amps_bar', 'get_a_abar')],
         uses=[W + 'wctot_dict', B_ + 'matrixelements.delta_C7', 'flavio.classes.AuxiliaryQuantity.prediction'], max_paths=20, time_limit=300, native_n=4)
def bvgamma_amplitudes(v):
    """amplitudes of B -> V gamma and of the CP-conjugate decay: all weak phases conjugated, photon helicities interchanged"""
    B, V = GMODE[v.choice('mode', list(GMODE))]
    par, wc = gamma_setup(v)
    mB, mV = par['m_' + B], par['m_' + V]
    v.assume_(v.gt(mB, mV + v.num('1/10')))
    v.assume_(v.gt(lam(mB**2, mV**2, 0.001), 0))
    a, ab = bvgamma.get_a_abar(wc, par, B, V)
    for x, cp, n in ((a, False, 'decay'), (ab, True, 'conjugate')):
        L, R = gamma_amps(v, par, wc, B, V, cp)
        sc = sq(L) + sq(R) if not v.sym else None
        v.ensure('%s: left' % n, v.eq(x['L'], L, tol=1e-5))
        v.ensure('%s: right' % n, v.eq(x['R'], R, tol=1e-5))


@harness('C21', targets=[BG + f for f in ('Gamma', 'Gamma_CPaverage', 'BR', 'ACP', 'S_A_complex', 'S', 'A_DeltaGamma', 'BR_timeint', 'BVgamma_function', 'BVgamma_ratio_function')],
         uses=[BG + 'get_a_abar', 'flavio.physics.mesonmixing.observables.q_over_p'], max_paths=20, time_limit=200)
def bvgamma_observables(v):
    """rate, direct and mixing-induced CP asymmetries, mass-eigenstate rate asymmetry and time-integrated rate of B -> V gamma from the amplitudes"""
    par, wc = v.par(), phys.wcs(v)
    amp = {(B, b, h): v.cplx('%s %s %s' % (B, b, h)) for B in ('B0', 'B+', 'Bs') for b in ('a', 'abar') for h in 'LR'}
    v.contract(bvgamma.get_a_abar, lambda wc_obj, par, B, V: tuple({h: amp[B, b, h] for h in 'LR'} for b in ('a', 'abar')))
    v.contract(mesonmixing.observables.q_over_p, lambda wc_obj, par, M: v.ufc('q/p', M))
    y = par['DeltaGamma/Gamma_Bs']/2
    v.assume_(v.gt(1, y**2))
    if not v.sym:
        y = par['DeltaGamma/Gamma_Bs']/2
    br, tot = {}, {}
    for mode, (B, V) in GMODE.items():
        a, ab = bvgamma.get_a_abar(wc, par, B, V)
        G, Gb = (sq(x['L']) + sq(x['R']) for x in (a, ab))
        tot[B] = G + Gb
        v.assume_(v.gt(tot[B], 0))
        br[B] = par['tau_' + B]*tot[B]/2
        v.ensure('ACP ' + mode, v.eq(pred('ACP(%sgamma)' % mode, par, wc)*tot[B], G - Gb, scale=tot[B]))
        if B == 'B+':
            continue
        qp = mesonmixing.observables.q_over_p(wc, par, B)
        # lambda_f summed over the photon helicities
        l = -qp*(a['L']*co(ab['L']) + a['R']*co(ab['R']))
        v.ensure('S ' + mode, v.eq(pred('S_K*gamma' if B == 'B0' else 'S_phigamma', par, wc)*tot[B], 2*l.imag, scale=tot[B]))
        if B == 'Bs':
            A = pred('ADeltaGamma(Bs->phigamma)', par, wc)
            v.ensure('A', v.eq(A*tot[B], 2*l.real, scale=tot[B]))
            # int_0^inf e^-t (cosh yt - A sinh yt)
            br[B] = br[B]*((1 - A)/2/(1 - y) + (1 + A)/2/(1 + y))
    for mode, (B, V) in GMODE.items():
        v.ensure('BR ' + mode, v.eq(pred('BR(%sgamma)' % mode, par, wc), br[B]))
    v.nonzero(br['Bs'])
    v.ensure('ratio', v.eq(pred('BR(B0->K*gamma)/BR(Bs->phigamma)', par, wc)*br['Bs'], br['B0']))


# ------------------------------------------------------------------ B -> l l gamma
BLG = B_ + 'bllgamma.'


def llg_setup(v):
    phys.ckm_contract(v)
    phys.masses_contract(v)
    v.contract(wilsoncoefficients.wctot_dict, lambda wc_obj, sector, scale, par, nf_out=5: {k: v.cplx('tot.' + k) for k in wilsoncoefficients.fcnclabels[sector]})
    v.contract(AuxiliaryQuantity.prediction, lambda self, par_dict, wc_obj, *a, **kw:
               {k: v.uf('B->gamma ' + k, kw['q2'], kw['B']) for k in ('v', 'a', 'tv', 'ta')})
    return v.par(), phys.wcs(v, scale=0.3)


def llg_setting(v, par, wc, B, lep, q2):
    qq = meson_quark[B]
    scale = config['renormalization scale']['bllgamma']
    tot = wilsoncoefficients.wctot_dict(wc, qq + lep + lep, scale, par)
    f, f0 = (AuxiliaryQuantity['B->gamma form factor'].prediction(par_dict=par, wc_obj=None, q2=x, B=B) for x in (q2, 0))
    return qq, scale, tot, f, f0


@harness('C21', targets=[BLG + 'getfft'], uses=['flavio.classes.AuxiliaryQuantity.prediction'], max_paths=5, time_limit=200)
def bllgamma_tensor(v):
    """tensor form factors: emission from either quark, light vector mesons coupling to the second photon, weak annihilation in the vector part"""
    B = v.choice('B', ['B0', 'Bs'])
    par, wc = llg_setup(v)
    q2 = v.real('q2', pos=True, dom=(2, 8))
    qq, scale, tot, f, f0 = llg_setting(v, par, wc, B, 'mu', q2)
    C7 = tot['C7_' + qq]
    v.assume_(v.gt(sq(C7), 0))
    mB, mb, fB = par['m_' + B], running.get_mb(par, scale, nf_out=5), par['f_' + B]
    r2 = v.fsqrt(2)
    V = {'Bs': [('phi', -v.num('1/3'), -par['Bs->phi BSZ a0_T1'])],
         'B0': [('rho0', 1/r2, par['B->rho BSZ a0_T1']/r2), ('omega', 1/(3*r2), -par['B->omega BSZ a0_T1']/r2)]}[B]
    res = sum(-2*c*par['f_' + M]*g*q2/par['m_' + M]/(q2 - par['m_' + M]**2 + v.i()*par['m_' + M]/par['tau_' + M]) for M, c, g in V)
    a1 = -tot['C1_' + qq] - tot['C2_' + qq]/3
    tv, ta = bllgamma.getfft(q2/mB**2, par, B, f, f0, 'mu', tot)
    v.ensure('vector', v.eq(C7*tv, C7*(f['tv'] + f0['tv'] + res) + v.num('16/3')*a1*fB/mb))
    v.ensure('axial vector', v.eq(ta, f['ta'] + f0['ta'] + res))


@harness('C21', targets=[BLG + f for f in ('prefactor', 'getF1', 'getF2', 'B10', 'B12', 'B120', 'dG1dsMN', 'dG2dsMN', 'dG12dsMN', 'dGdsMN', 'bllg_dbrdq2',
                                           'bllg_dbrdq2_func', 'get_ff')],
         uses=[W + 'wctot_dict', BLG + 'getfft', 'flavio.classes.AuxiliaryQuantity.prediction'], max_paths=30, time_limit=300, native_n=8)
def bllgamma_rate(v):
    """rate of B -> l l gamma: structure-dependent emission is a sum of squared amplitudes, bremsstrahlung and interference are the integrals of the
    double differential distribution over the lepton energy"""
    B, lep = v.choice('B', ['B0', 'Bs']), v.choice('lepton', ['e', 'mu'])
    par, wc = llg_setup(v)
    mB, ml = par['m_' + B], par['m_' + lep]
    q2 = v.real('q2', pos=True, dom=(2, 8))
    v.assume_(v.gt(q2, 4*ml**2))
    v.assume_(v.gt(mB**2, q2))
    qq, scale, tot, f, f0 = llg_setting(v, par, wc, B, lep, q2)
    v.contract(bllgamma.getfft, lambda s, par, B, ff, ff0, lep, wc: tuple(v.ufc('T' + x, s, B, lep, ff['t' + x], ff0['t' + x]) for x in 'va'))
    s, m2 = q2/mB**2, ml**2/mB**2
    T = dict(zip('va', bllgamma.getfft(s, par, B, f, f0, lep, tot)))
    C7, C9, C10 = tot['C7_' + qq], tot['C9_' + qq + lep + lep], tot['C10_' + qq + lep + lep]
    fB = par['f_' + B]/mB
    vec = {h: C9*f[h] + 2*running.get_mb(par, scale, nf_out=5)/mB/s*C7*T[h] for h in 'va'}
    ax = {h: C10*f[h] for h in 'va'}
    N = par['GF']**2/(1024*v.pi**4)*sq(ckm.xi('t', qq)(par))*running.get_alpha(par, scale)['alpha_e']**3*mB**5
    x = 1 - s
    b = v.fsqrt(1 - 4*m2/s)
    # lepton spectrum in y = x (1 + b cos)/2:
    # direct emission: vector and axial vector lepton currents
    F = {h: sq(vec[h]) for h in 'va'}
    A = {h: sq(ax[h]) for h in 'va'}
    sd = x**3*b*sum(F[h]*v.num('4/3')*(s + 2*m2) + A[h]*v.num('4/3')*(s - 4*m2) for h in 'va')
    y = v.real('y', pos=True, dom=(0.01, 0.1))
    v.assume_(v.gt(x, y))

    # bremsstrahlung: antiderivative in y of 64 fB^2 m2 |C10|^2 {(s + x^2/2)/(y(x-y)) - m2 x^2/(y(x-y))^2}
    L = v.flog((1 + b)/(1 - b))
    pb = lambda t: (s + x**2/2)/x*(v.flog(t) - v.flog(x - t)) - m2*((1/(x - t) - 1/t) + 2/x*(v.flog(t) - v.flog(x - t)))
    v.lemma('antiderivative', v.eq(v.deriv(pb, y), (s + x**2/2)/(y*(x - y)) - m2*x**2/(y*(x - y))**2, tol=1e-4))
    y1, y2 = x*(1 - b)/2, x*(1 + b)/2
    # log(y2/(x-y2)) = L = -log(y1/(x-y1))
    ib = (s + x**2/2)/x*2*L - m2*((1/y1 - 1/y2)*2 + 4/x*L)
    if not v.sym:
        v.ensure('integral', v.eq(ib, pb(y2) - pb(y1)))
    br = 64*fB**2*m2*sq(C10)*ib
    # interference: - 16 fB m2 x^3/(y(x-y)) Re(C10* vector amplitude)
    it = -64*fB*m2*x**2*(L/2)*(co(C10)*vec['v']).real
    o = pred('dBR/dq2(%s->%s%sgamma)' % (B, lep, lep), par, wc, q2)
    v.ensure('rate', v.eq(o, par['tau_' + B]*N*(sd + br + it), tol=1e-6))
    # sd is b x^3 times squares with these weights
    v.ensure('direct emission not negative', v.and_(v.gt(s + 2*m2, 0), v.gt(s - 4*m2, 0), v.ge(b, 0), v.gt(x, 0)))
    # soft photons: the spectrum tends to that of classical radiation, x dG/dx -> 64 fB^2 m2 |C10|^2 {(1 + b^2) L - 2 b}
    v.ensure('soft limit', v.eq(ib*x, (1 + s**2 - 4*m2)*L - 2*s*b))


@harness('C21', targets=[BLG + f for f in ('bllg_dbrdq2', 'bllg_dbrdq2_int', 'bllg_dbrdq2_int_func')], uses=[BLG + 'dGdsMN'], max_paths=300, time_limit=200, native_n=4)
def bllgamma_range(v):
    """no rate outside the physical range; the binned rate is the average over the bin"""
    B, lep = v.choice('B', ['B0', 'Bs']), v.choice('lepton', ['e', 'mu'])
    par, wc = llg_setup(v)
    v.contract(bllgamma.dGdsMN, lambda s, par, B, ff, ff0, lep, wc: v.uf('dG', s, B, lep))
    lo, hi = 4*par['m_' + lep]**2, par['m_' + B]**2
    v.assume_(v.gt(v.num('7/10'), lo))      # no warnings
    v.assume_(v.gt(hi, 20))
    d = v.real('d', nonneg=True, dom=(0, 1))
    o = lambda n, *a: pred('%s(%s->%s%sgamma)' % (n, B, lep, lep), par, wc, *a)
    for q2, n in ((lo - d*lo, 'below'), (hi*(1 + v.num('1/100')) + d, 'above')):
        v.ensure(n, v.eq(o('dBR/dq2', q2), 0))
    quad = phys.integral_contract(v)
    x = v.real('x', pos=True, dom=(15, 18))
    y = x + v.real('w', pos=True, dom=(1, 2))
    v.assume_(v.gt(x, 14))
    v.assume_(v.gt(hi, y))
    v.ensure('bin', v.eq(o('<dBR/dq2>', x, y)*(y - x), quad(lambda q: o('dBR/dq2', q), x, y), tol=0.02))


# ------------------------------------------------------------------ B -> X gamma
BX = B_ + 'bxgamma.'


def bx_setup(v, conj=None):
    """total coefficients: arbitrary complex numbers; conj['x']: the CP-conjugate process"""
    phys.ckm_contract(v)
    phys.masses_contract(v)

    def tot(wc_obj, sector, scale, par, nf_out=5):
        q = sector[:2]
        names = ['C%d_%s' % (i, q) for i in range(1, 7)] + ['C%dp_%s' % (i, q) for i in range(1, 7)] + [k + q for k in ('C7eff_', 'C8eff_', 'C7effp_', 'C8effp_')]
        d = {k: v.cplx('tot.' + k) for k in names}
        return {k: co(x) for k, x in d.items()} if conj and conj['x'] else d
    v.contract(wilsoncoefficients.wctot_dict, tot)
    return v.par(), phys.wcs(v, scale=0.3)


def bx_coeffs(wc, par, q):
    scale = config['renormalization scale']['bxgamma']
    t = wilsoncoefficients.wctot_dict(wc, q + 'ee', scale, par, nf_out=5)
    n = ['C1', 'C2', 'C3', 'C4', 'C5', 'C6', 'C7eff', 'C8eff']
    return [[t[x + '_' + q] for x in n], [t[x + 'p_' + q] for x in n]]


def bx_terms(v, par, wc, q):
    """|C7|^2 + |C7'|^2, real part of the interference weighted with the two matrices, imaginary part, and the ratio of CKM elements"""
    C, Cp = bx_coeffs(wc, par, q)
    form = lambda K, part: sum(float(K[i, j])*part(c[i]*co(c[j])) for c in (C, Cp) for i in range(8) for j in range(8) if K[i, j])
    at = running.get_alpha(par, config['renormalization scale']['bxgamma'], nf_out=5)['alpha_s']/4/v.pi
    r = ckm.xi('u', q)(par)/ckm.xi('t', q)(par)
    re, im = lambda z: z.real, lambda z: z.imag
    even = sq(C[6]) + sq(Cp[6]) + at*form(bxgamma.ka1_r, re) + at**2*form(bxgamma.ka2_r, re) - 0.0296854*r.real + 0.123411*sq(r)
    odd = at*form(bxgamma.ka1_i, im) + 0.0596211*r.imag
    return even, odd


@harness('C21', targets=[BX + f for f in ('BRBXgamma', 'PE0_BR_BXgamma', 'PE0_ACP_BXgamma', 'ACPBXgamma')], uses=[W + 'wctot_dict'], max_paths=20, time_limit=300, native_n=4)
def bxgamma_rates(v):
    """inclusive radiative decay: rate normalised to the semileptonic rate and direct CP asymmetry summed over strange and down final states"""
    par, wc = bx_setup(v)
    ev, od = {}, {}
    for q in ('bs', 'bd'):
        e, o = bx_terms(v, par, wc, q)
        n = sq(ckm.xi('t', q)(par))
        ev[q], od[q] = n*e, n*o
        Vcb = ckm.get_ckm(par)[1, 2]
        norm = par['BR(B->Xcenu)_exp']/sq(Vcb)*6*(1/137.035999139)/v.pi/par['C_BXlnu']
        extra = 0.00381745 + 0.1249*par['delta_BX%sgamma' % q[1]]
        v.ensure('rate ' + q, v.eq(pred('BR(B->X%sgamma)' % q[1], par, wc), norm*(ev[q] + n*extra)))
    v.nonzero(ev['bs'] + ev['bd'])
    v.ensure('ACP', v.eq(pred('ACP(B->Xgamma)', par, wc)*(ev['bs'] + ev['bd']), od['bs'] + od['bd'], scale=ev['bs']))


@harness('C21', targets=[BX + f for f in ('BRBXgamma', 'PE0_BR_BXgamma', 'PE0_ACP_BXgamma')], uses=[W + 'wctot_dict'], max_paths=20, time_limit=300, native_n=4)
def bxgamma_cp(v):
    """the rate is the same for the CP-conjugate process, the numerator of the asymmetry changes sign; it vanishes without phases and at leading order it only
    comes from the CKM matrix; only one photon-energy cut is available"""
    conj = {'x': False}
    par, wc = bx_setup(v, conj)
    from flavio.physics.bdecays.wilsoncoefficients import wctot_dict
    q = v.choice('q', ['s', 'd'])

    def run(cp):
        conj['x'] = cp and v.sym
        p = conjugate_par(par) if cp else par
        t = wilsoncoefficients.wctot_dict(wc, 'b%see' % q, config['renormalization scale']['bxgamma'], par, nf_out=5)
        if cp and not v.sym:
            t = {'%s_b%s' % (k, q): co(t['%s_b%s' % (k, q)]) for i in list(range(1, 7)) + ['7eff', '8eff'] for k in ('C%s' % i, 'C%sp' % i)}
        return bxgamma.PE0_BR_BXgamma(t, p, q, 1.6), bxgamma.PE0_ACP_BXgamma(t, p, q, 1.6)
    (a, x), (b, y) = run(False), run(True)
    v.ensure('rate', v.eq(a, b))
    v.ensure('asymmetry', v.eq(x, -y, scale=a))
    for f in (bxgamma.PE0_BR_BXgamma, bxgamma.PE0_ACP_BXgamma):
        for E0 in (1.5, 1.8, 2.0):
            try:
                f({}, par, q, E0)
                ok = False
            except ValueError:
                ok = True
            v.ensure('cut %s %s' % (f.__name__, E0), ok)
    for n, K, sign in (('ka1_r', bxgamma.ka1_r, 1), ('ka2_r', bxgamma.ka2_r, 1), ('ka1_i', bxgamma.ka1_i, -1)):
        v.ensure('symmetry ' + n, bool(np.array_equal(K, sign*K.T)))


# ------------------------------------------------------------------ K -> pi pi
KPP = K_ + 'kpipi.'
# operators of the traditional basis (normalised to V-A, V+A currents): 4 x the combination of chiral operators with the flavour weights (u, d)
SUM, CHARGE = {'uu': 1, 'dd': 1}, {'uu': 1, 'dd': '-1/2'}
QOPS = {'1': {'CVLL_sduu': 1}, '2': {'CVLLt_sduu': 1},
        '3': {'CVLL_sduu': 1, 'CVLL_sddd': 1}, '9': {'CVLL_sduu': 1, 'CVLL_sddd': '-1/2'},
        '4': {'CVLLt_sduu': 1, 'CVLL_sddd': 1}, '10': {'CVLLt_sduu': 1, 'CVLL_sddd': '-1/2'},        # Fierz
        '5': {'CVLR_sduu': 1, 'CVLR_sddd': 1}, '7': {'CVLR_sduu': 1, 'CVLR_sddd': '-1/2'},
        '6': {'CVLRt_sduu': 1, 'CSRL_sddd': 2}, '8': {'CVLRt_sduu': 1, 'CSRL_sddd': -1}}             # Fierz
FLIP = {'L': 'R', 'R': 'L'}


def kpipi_setup(v):
    phys.ckm_contract(v)
    phys.masses_contract(v)
    y = ['z1', 'z2'] + ['y%d' % i for i in range(3, 11)]
    v.contract(kwc.wilsoncoefficients_sm_fourquark, lambda par, scale: {k: v.uf(k, par['alpha_s'], scale) for k in y})
    par = v.par()
    return par, phys.wcs(v, scale=0.3)


def flip(name):
    """parity-transformed operator: all chiralities interchanged"""
    op, s = name.split('_')
    if op.startswith('C8'):
        return ('C8' if op == 'C8p' else 'C8p') + '_' + s
    return op[:2] + FLIP[op[2]] + FLIP[op[3]] + op[4:] + '_' + s


@harness('C21', targets=[KPP + 'Kpipi_matrixelements_SM', KPP + 'Kpipi_matrixelements_NP'], max_paths=5, native_n=4)
def kpipi_matrixelements(v):
    """operator relations of the traditional basis, isospin, Fierz and parity relations among the K -> pi pi matrix elements"""
    par, wc = kpipi_setup(v)
    scale = config['renormalization scale']['kpipi']
    Q, M = kpipi.Kpipi_matrixelements_SM(par, scale), kpipi.Kpipi_matrixelements_NP(par, scale)
    h = v.num('1/2')
    for i in (0, 2):
        q, m = Q[i], M[i]
        sc = sum(abs(x) for x in q.values()) if not v.sym else None
        v.ensure('inputs %d' % i, v.and_(*[v.eq(q[k], par['Kpipi M%d %s' % (i, k)]) for k in (('3', '4', '5', '6', '7', '8', '9') if i == 0 else ('7', '8', '9'))]))
        # Q9, Q10 = (3 Q1,2 - Q3,4)/2, Q10 = Q9 + Q4 - Q3
        v.ensure('charge-weighted operators %d' % i, v.and_(v.eq(2*q['9'], 3*q['1'] - q['3'], scale=sc), v.eq(2*q['10'], 3*q['2'] - q['4'], scale=sc), v.eq(q['10'] - q['9'], q['4'] - q['3'], scale=sc)))
        for k, c in QOPS.items():
            v.ensure('Q%s, %d' % (k, i), v.eq(q[k], 4*sum(v.num(x)*m[n] for n, x in c.items()), scale=sc))
        for n in m:
            v.ensure('parity %s %d' % (n, i), v.eq(m[flip(n)], -m[n], scale=sc))
        # colour-crossed scalar and tensor operators of equal flavour by Fierz transformation
        S1 = -h*m['CSRR_sddd'] - m['CTRR_sddd']/8
        v.ensure('scalar %d' % i, v.and_(v.eq(S1, par['Kpipi M%d SLL1_d' % i], scale=sc), v.eq(m['CSRR_sddd'], par['Kpipi M%d SLL2_d' % i])))
        if i == 2:
            T1 = -6*m['CSRR_sddd'] + h*m['CTRR_sddd']
            # the isosinglet s d (u u + d d) has no I=2 matrix element
            fz = {'CVLLt': m['CVLL_sddd'], 'CVLRt': 2*m['CSRL_sddd'], 'CSRLt': -h*m['CVLR_sddd'], 'CSRRt': S1, 'CTRRt': T1}
            for o in ('CVLL', 'CVLR', 'CSRL', 'CSRR', 'CTRR', *fz):
                v.ensure('isosinglet ' + o, v.eq(m[o + '_sduu'] + (fz[o] if o in fz else m[o + '_sddd']), 0, scale=sc))
            v.ensure('chromomagnetic operator', v.eq(m['C8_sd'], 0))
        else:
            for o, k, s in (('CSRL', 'SLR2', 1), ('CSRLt', 'SLR1', 1), ('CSRR', 'SLL2', 1), ('CSRRt', 'SLL1', 1), ('CTRR', 'SLL4', -1), ('CTRRt', 'SLL3', -1)):
                v.ensure('up-quark operator ' + o, v.eq(m[o + '_sduu'], s*par['Kpipi M0 %s_u' % k]))
            v.ensure('chromomagnetic operator 0', v.eq(m['C8_sd'], -h*running.get_ms(par, scale, nf_out=3)*par['Kpipi M0 g-']))
    v.ensure('all operators', set(M[0]) == set(M[2]))


@harness('C21', targets=[KPP + f for f in ('Kpipi_amplitudes_SM', 'Kpipi_amplitudes_NP', 'epsprime_SM', 'epsprime_NP', 'epsprime')],
         uses=[KPP + 'Kpipi_matrixelements_SM', KPP + 'Kpipi_matrixelements_NP', K_ + 'wilsoncoefficients.wilsoncoefficients_sm_fourquark'],
         max_paths=5, time_limit=300)
def kpipi_amplitudes(v):
    """isospin amplitudes of K0 -> pi pi and direct CP violation: sum over operators, new physics in the Standard Model direction shifts its coefficients"""
    par, wc = kpipi_setup(v)
    scale = config['renormalization scale']['kpipi']
    V = ckm.get_ckm(par)
    lu, lt = co(V[0, 1])*V[0, 0], co(V[2, 1])*V[2, 0]
    y = kwc.wilsoncoefficients_sm_fourquark(par, scale)
    Q = kpipi.Kpipi_matrixelements_SM(par, scale)
    G = par['GF']/v.fsqrt(2)
    groups = {'tree': ('1', '2'), 'VmA': ('3', '4', '9', '10'), 'VpA': ('5', '6', '7', '8')}
    part = lambda i, g: sum(Q[i][k]*(lu*y['z' + k] if g == 'tree' else -lt*y['y' + k]) for k in groups[g])*G
    S = {}
    for a in (True, False):
        for b in (True, False):
            A = kpipi.Kpipi_amplitudes_SM(par, include_VmA=a, include_VpA=b)
            for i in (0, 2):
                v.ensure('amplitude %d %s %s' % (i, a, b), v.eq(A[i], part(i, 'tree') + (part(i, 'VmA') if a else 0) + (part(i, 'VpA') if b else 0)))
            if a and b:
                S = A
    w = lambda A, c: -par['omega+']/v.fsqrt(2)/par['eps_K']*(A[0].imag/par['ReA0(K->pipi)']*c - A[2].imag/par['ReA2(K->pipi)']/par['epsp a'])
    sm = w(S, 1 - par['Omegahat_eff'])
    # without isospin breaking corrections
    d = wc.get_wc(sector='sd', scale=scale, par=par, eft='WET-3')
    M = kpipi.Kpipi_matrixelements_NP(par, scale)
    N = {i: -4*G*lt*sum(m*co(d[k]) for k, m in M[i].items()) for i in (0, 2)}
    X = kpipi.Kpipi_amplitudes_NP(wc, par)
    for i in (0, 2):
        v.ensure('new physics %d' % i, v.eq(X[i], N[i]))
    np_ = w(N, 1/par['epsp a'])
    v.ensure('Standard Model', v.eq(kpipi.epsprime_SM(par), sm))
    v.ensure('new physics', v.eq(kpipi.epsprime_NP(wc, par), np_))
    v.ensure("eps'/eps", v.eq(pred('epsp/eps', par, wc), sm + np_, scale=sm))


class Shift:
    """coefficients equal to given numbers, all others zero"""

    def __init__(self, d):
        self.d = d

    def get_wc(self, **k):
        d = self.d

        class D(dict):
            def __missing__(self, n):
                return 0
        return D(d)


@harness('C21', targets=[KPP + 'Kpipi_amplitudes_SM', KPP + 'Kpipi_amplitudes_NP', KPP + 'epsprime_NP'], uses=[K_ + 'wilsoncoefficients.wilsoncoefficients_sm_fourquark'],
         max_paths=20, time_limit=300, native_n=4)
def kpipi_np_conventions(v):
    """a coefficient of a Standard Model penguin operator and the same coefficient supplied as new physics give the same amplitude; conjugating all
    phases reverses the sign of direct CP violation"""
    par, wc = kpipi_setup(v)
    x = v.real('coefficient')
    for k, c in QOPS.items():
        if k in '12':
            continue
        y = {n: 0 for n in ['z1', 'z2'] + ['y%d' % i for i in range(3, 11)]}
        y['y' + k] = x
        v.setattr(kpipi, 'wilsoncoefficients_sm_fourquark', lambda par, scale: y)
        A = kpipi.Kpipi_amplitudes_SM(par)
        B = kpipi.Kpipi_amplitudes_NP(Shift({n: v.num(w)*x*(1 + 0*v.i()) for n, w in c.items()}), par)
        for i in (0, 2):
            v.ensure('Q%s, %d' % (k, i), v.eq(A[i], B[i], scale=abs(A[0]) if not v.sym else None))
    names = sorted(kpipi.Kpipi_matrixelements_NP(par, config['renormalization scale']['kpipi'])[0])
    general = {n: v.cplx('g.' + n) for n in names}
    e = lambda d, p: kpipi.epsprime_NP(Shift(d), p)
    ref = e(general, par)
    v.ensure('CP conjugation', v.eq(e({n: co(z) for n, z in general.items()}, conjugate_par(par)), -ref))


# ------------------------------------------------------------------ K -> pi nu nu
def kp_setup(v):
    phys.ckm_contract(v)
    phys.masses_contract(v)
    cl_contract(v)
    return v.par(), phys.wcs(v, scale=0.3)


def kp_amp(v, par, wc, n1, n2):
    """top and new physics times xi_t, charm (with the long-distance correction) times xi_c for equal flavours only; CKM elements conjugated as for a K"""
    scale = config['renormalization scale']['kdecays']
    k = 'sd' + n1 + n2
    d = wc.get_wc(k, scale, par, nf_out=3)
    V = ckm.get_ckm(par)
    lt, lc = co(V[2, 1])*V[2, 0], co(V[1, 1])*V[1, 0]
    C = d['CL_' + k] + d['CR_' + k]
    if n1 == n2:
        C = C + wilsoncoefficients.CL_SM(par, scale)
    a = -par['s2w']*lt*C
    if n1 == n2:
        a = a + lc*(kpinunu.kpinunu_charm(par) + par['deltaPcu'])*sq(V[0, 1])**2
    return a


def kp_norm(v, par, n):
    scale = config['renormalization scale']['kdecays']
    al = running.get_alpha(par, scale)['alpha_e']
    V = ckm.get_ckm(par)
    return par['kappa_%s_tilde' % n]*(1/0.225**8)*al**2*127.9**2*0.231**2/par['s2w']**2/sq(V[0, 1])/3


@harness('C21', targets=[K_ + 'kpinunu.' + f for f in ('kpinunu_amplitude', 'kappa_nu_tilde', 'br_kplus_pinunu', 'br_klong_pinunu', 'br_kplus_pinunu_summed', 'br_klong_pinunu_summed')],
         uses=[W + 'CL_SM', 'flavio.physics.ckm.get_ckm'], max_paths=10, time_limit=300)
def kpinunu_rates(v):
    """K+ -> pi+ nu nu and K_L -> pi0 nu nu summed over nine flavour combinations; K_L from the CP-odd combination; the Grossman-Nir bound"""
    par, wc = kp_setup(v)
    A = {(a, b): kp_amp(v, par, wc, a, b) for a in NU for b in NU}
    plus = sum(sq(x) for x in A.values())
    long = sum(sq(A[a, b] - co(A[b, a])) for a in NU for b in NU)/4
    kp, kl = kp_norm(v, par, 'plus'), kp_norm(v, par, 'L')
    v.ensure('charged', v.eq(pred('BR(K+->pinunu)', par, wc), plus*kp))
    v.ensure('neutral', v.eq(pred('BR(KL->pinunu)', par, wc), long*kl))
    # Im for equal flavours
    same = sum(A[a, a].imag**2 for a in NU) + sum(sq(A[a, b] - co(A[b, a])) for a in NU for b in NU if a != b)/4
    v.ensure('equal flavours: imaginary part', v.eq(long, same))
    rest = sum(sq(A[a, b] + co(A[b, a])) for a in NU for b in NU)/4
    v.ensure('Grossman-Nir', v.and_(v.eq(plus, long + rest), v.ge(rest, 0)))
    try:
        kpinunu.kappa_nu_tilde(par, 'short')
        ok = False
    except ValueError:
        ok = True
    v.ensure('unknown charge is refused', ok)


# ------------------------------------------------------------------ K -> l l
@harness('C21', targets=[K_ + 'kll.' + f for f in ('amplitudes', 'amplitudes_LD', 'amplitudes_eff', 'get_wc', 'br_kll', 'br_kll_fct', 'br_kll_fct_lsum')] +
         [K_ + 'wilsoncoefficients.wilsoncoefficients_sm_sl'], uses=['flavio.physics.ckm.get_ckm'], max_paths=20, time_limit=300)
def kll_rates(v):
    """K_L and K_S -> l l': CP-even and CP-odd combinations of the K0 and K0bar amplitudes, long-distance parts, flavour violating modes summed over charges"""
    phys.ckm_contract(v)
    par, wc = v.par(), phys.wcs(v, scale=0.3)
    K, (l1, l2) = v.choice('K', ['KL', 'KS']), v.choice('leptons', [('e', 'e'), ('mu', 'mu'), ('e', 'mu')])
    scale = config['renormalization scale']['kdecays']
    V = ckm.get_ckm(par)
    lt, lc = V[2, 1]*co(V[2, 0]), V[1, 1]*co(V[1, 0])
    lt, lc = co(co(lt)), co(co(lc))
    mK, tau = par['m_K0'], par['tau_' + K]
    v.assume_(v.gt(mK, par['m_' + l1] + par['m_' + l2]))

    def PS(a, b):
        k = 'sd' + a + b
        d = wc.get_wc(k, scale, par)
        D = {x: d[x + '_' + k] - d[x + 'p_' + k] for x in ('C9', 'C10', 'CS', 'CP')}
        xt, xc = ckm.xi('t', 'sd')(par), ckm.xi('c', 'sd')(par)
        P = xt*((par['m_' + a] + par['m_' + b])/mK*D['C10'] + mK*D['CP'])
        S = xt*((par['m_' + b] - par['m_' + a])/mK*D['C9'] + mK*D['CS'])
        if a == b:
            top = -v.num('41/10')*(par['m_t']/173.1)**1.53
            charm = -v.num('115/1000')/par['s2w']*sq(V[0, 1])**2
            P = P + 2*par['m_' + a]/mK*(xt*top + xc*charm)
        return P, S

    def width(a, b):
        """K0bar -> a b and K0 -> a b, superposed"""
        P, S = PS(a, b)
        Pb, Sb = (co(x) for x in PS(b, a))
        ld = 2*par['m_' + a]/par['m_' + K]/par['s2w']
        if K == 'KL':
            p, s = (P + Pb)/2, (S - Sb)/2
            if a == b:
                p = p - ld*v.num('202/1000000')*(par['chi_disp(KL->gammagamma)'] - v.num('521/100')*v.i())
        else:
            p, s = (P - Pb)/2, (S + Sb)/2
            if a == b:
                s = s + ld*v.num('249/1000000')*(-v.num('2821/1000') + v.num('1216/1000')*v.i())
        ma, mb = par['m_' + a], par['m_' + b]
        N2 = par['GF']**2*par['alpha_e']**2/(2*v.pi**2)
        b2 = v.fsqrt(lam(mK**2, ma**2, mb**2))/mK**2
        return N2/16/v.pi*mK**3*tau*par['f_K0']**2*b2*((1 - (ma - mb)**2/mK**2)*sq(p) + (1 - (ma + mb)**2/mK**2)*sq(s)), (P, S), (Pb, Sb)
    if l1 == l2:
        v.ensure('rate', v.eq(pred('BR(%s->%s%s)' % (K, l1, l1), par, wc), width(l1, l1)[0]))
    else:
        v.ensure('both charges', v.eq(pred('BR(%s->emu,mue)' % K, par, wc), width('e', 'mu')[0] + width('mu', 'e')[0]))
        # the K_L and K_S rates add up to those of K0 and K0bar
        T = {}
        for k in ('KL', 'KS'):
            T[k] = pred('BR(%s->emu,mue)' % k, par, wc)/par['tau_' + k]
        w, (P, S), (Pb, Sb) = width('e', 'mu')
        ma, mb = par['m_e'], par['m_mu']
        N2 = par['GF']**2*par['alpha_e']**2/(2*v.pi**2)
        flav = N2/16/v.pi*mK**3*par['f_K0']**2*v.fsqrt(lam(mK**2, ma**2, mb**2))/mK**2*(
            (1 - (ma - mb)**2/mK**2)*(sq(P) + sq(Pb)) + (1 - (ma + mb)**2/mK**2)*(sq(S) + sq(Sb)))
        v.ensure('sum over mass eigenstates', v.eq(T['KL'] + T['KS'], flav))


# ------------------------------------------------------------------ Lambda_b -> Lambda l l, Lambda_b -> Lambda(1520) l l
LL, L5 = B_ + 'lambdablambdall.', B_ + 'lambdablambda1520ll.'
LMOD = {'Lambda': lambdablambdall, 'Lambda(1520)': lambdablambda1520ll}
LFF = {'Lambda': ('fV0', 'fVperp', 'fA0', 'fAperp', 'fT0', 'fTperp', 'fT50', 'fT5perp'),
       'Lambda(1520)': ('fVt', 'fV0', 'fVperp', 'fVg', 'fAt', 'fA0', 'fAperp', 'fAg', 'fT0', 'fTperp', 'fTg', 'fT50', 'fT5perp', 'fT5g')}
GETTA = {'Lambda': 'get_transverity_amps', 'Lambda(1520)': 'get_transversity_amps'}
TA = {'Lambda': [p + k for p in ('perp', 'para') for k in '01'], 'Lambda(1520)': ['A' + p + k for p in ('perp', 'para') for k in '01'] + ['Bperp1', 'Bpara1']}
EFF = ('7', '7p', 'v', 'vp', 'a', 'ap')


def tamps(f, ha, q2, mLb, mL, mb, wc, N):
    return f(ha, q2, mLb, mL, mb, 0, wc, N) if f is lambdablambdall.transverity_amps else f(ha, q2, mLb, mL, mb, wc, N, 'bsmumu')


def vector_helicity(v, M, ff, q2, mb, mL):
    """hadronic amplitudes by transversity for the vector, axial and photon-pole operators"""
    p, m = v.fsqrt((mb + mL)**2 - q2), v.fsqrt((mb - mL)**2 - q2)
    Q, r2 = v.fsqrt(q2), v.fsqrt(2)
    S, D = mb + mL, mb - mL
    if M == 'Lambda':
        # (current, photon pole) for perp, para
        return {'perp0': (ff['fV0']*S/Q*m, -ff['fT0']*Q*m), 'perp1': (-ff['fVperp']*r2*m, ff['fTperp']*S*r2*m),
                'para0': (ff['fA0']*D/Q*p, ff['fT50']*Q*p), 'para1': (-ff['fAperp']*r2*p, -ff['fT5perp']*D*r2*p)}
    a, b = m**2*p/(v.fsqrt(6)*mL), p**2*m/(v.fsqrt(6)*mL)
    return {'Aperp0': (-ff['fV0']*S/Q*a, ff['fT0']*Q*a), 'Aperp1': (-ff['fVperp']*r2*a, ff['fTperp']*S*r2*a), 'Bperp1': (ff['fVg']*p, -ff['fTg']*p),
            'Apara0': (-ff['fA0']*D/Q*b, -ff['fT50']*Q*b), 'Apara1': (ff['fAperp']*r2*b, ff['fT5perp']*D*r2*b), 'Bpara1': (-ff['fAg']*m, -ff['fT5g']*m)}


@harness('C21', targets=[LL + 'helicity_amps', LL + 'transverity_amps', L5 + 'helicity_amps', L5 + 'transversity_amps'], max_paths=5, time_limit=300)
def lambda_transversity(v):
    """transversity amplitudes from form factors: left/right-handed leptons couple to C9 -/+ C10, right-handed quark currents enter with opposite sign in the
    parallel amplitudes, the photon pole like a vector coefficient"""
    M = v.choice('baryon', list(LMOD))
    mLb, mL, q2, mb = (v.real(n, pos=True, dom=d) for n, d in (('mLb', (5, 6)), ('mL', (1, 2)), ('q2', (1, 12)), ('mb', (4, 5))))
    v.assume_(v.gt(mLb, mL))
    v.assume_(v.gt((mLb - mL)**2, q2))
    ff = {k: v.real(k) for k in LFF[M]}
    wc = {k: v.cplx('C' + k) for k in EFF}
    N = v.cplx('N')
    mod = LMOD[M]
    A = tamps(mod.transverity_amps if M == 'Lambda' else mod.transversity_amps, mod.helicity_amps(q2, mLb, mL, ff), q2, mLb, mL, mb, wc, N)
    H = vector_helicity(v, M, ff, q2, mLb, mL)
    v.ensure('amplitudes', set(A) == {(k, X) for k in TA[M] for X in 'LR'})
    for k, (h, t) in H.items():
        e = 1 if 'perp' in k else -1
        for X, s in (('L', -1), ('R', 1)):
            C = (wc['v'] + s*wc['a']) + e*(wc['vp'] + s*wc['ap'])
            C7 = wc['7'] + e*wc['7p']
            ref = e*v.fsqrt(2)*N*(C*h - e*2*mb/q2*C7*t)
            v.ensure('%s %s' % (k, X), v.eq(A[k, X], ref, scale=abs(N)*abs(h) if not v.sym else None))


def num(v, z):
    return z if v.sym else np.complex128(z)


def small_d(v, j, u):
    """Wigner d functions of the angle 2 arctan(u)"""
    n = 1 + u**2
    if j == 1:
        c, s = (1 - u**2)/n, 2*u/n
        r = v.fsqrt(2)
        return {(1, 1): (1 + c)/2, (1, -1): (1 - c)/2, (-1, 1): (1 - c)/2, (-1, -1): (1 + c)/2, (0, 1): s/r, (0, -1): -s/r}, c, s
    # without the common factor 1/sqrt(n) of cos, sin of the half angle
    c, s = 1, u
    C, S = (1 - u**2)/n, 2*u/n
    if j == '1/2':
        return {(1, 1): c, (1, -1): -s, (-1, 1): s, (-1, -1): c}, C, S
    r3 = v.fsqrt(3)
    c2, s2 = 1/n, u**2/n
    return {(3, 1): -r3*c2*s, (3, -1): r3*c*s2, (1, 1): (3*C - 1)/2*c, (1, -1): -(3*C + 1)/2*s,
            (-1, 1): (3*C + 1)/2*s, (-1, -1): (3*C - 1)/2*c, (-3, 1): r3*c*s2, (-3, -1): r3*c2*s}, C, S


@harness('C21', targets=[LL + 'angular_coefficients', L5 + 'angular_coefficients'], max_paths=5, time_limit=400, shard=('baryon', 2))
def lambda_angular(v):
    """the angular distribution is the sum over spins of squared helicity amplitudes, so it is never negative"""
    M = v.choice('baryon', list(LMOD))
    ta = {(k, X): num(v, v.cplx(k + X)) for k in TA[M] for X in 'LR'}
    t, T, w = v.real('t'), v.real('T'), v.real('w')
    D1, cl, sl = small_d(v, 1, t)
    # e^{i phi} and its cosine, sine
    e = (1 + v.i()*w)*(1 + v.i()*w)/(1 + w**2)
    cp, sp = (1 - w**2)/(1 + w**2), 2*w/(1 + w**2)
    total = 0
    if M == 'Lambda':
        al = v.real('alpha', dom=(-1, 1))
        v.assume_(v.gt(1, al**2))
        K = lambdablambdall.angular_coefficients(ta, al)
        DH, C, S = small_d(v, '1/2', T)
        dist = (K['1ss']*sl**2 + K['1cc']*cl**2 + K['1c']*cl + (K['2ss']*sl**2 + K['2cc']*cl**2 + K['2c']*cl)*C
                + (K['3sc']*sl*cl + K['3s']*sl)*S*sp + (K['4sc']*sl*cl + K['4s']*sl)*S*cp)
        for X, lam_ in (('L', 1), ('R', -1)):
            H = {(l, 0): (ta['perp0', X] + l*ta['para0', X]) for l in (1, -1)}
            H.update({(l, l): -(ta['perp1', X] + l*ta['para1', X]) for l in (1, -1)})
            for Jz in (1, -1):
                for lN in (1, -1):
                    a = sum(H[k]*DH[k[0], lN]*D1[k[1], lam_]*(e if k[0] == 1 else 1) for k in H if k[0] - 2*k[1] == Jz)
                    # the proton helicity is weighted with the decay parameter; 1/(1 + T^2) is the common factor of the half angle
                    total = total + sq(a)*(1 + lN*al)/2/(1 + T**2)
    else:
        br = v.real('br', pos=True, dom=(0.1, 1))
        L = lambdablambda1520ll.angular_coefficients(ta, br)
        DH, C, S = small_d(v, '3/2', T)
        dist = (C**2*(L['1c']*cl + L['1cc']*cl**2 + L['1ss']*sl**2) + S**2*(L['2c']*cl + L['2cc']*cl**2 + L['2ss']*sl**2)
                + S**2*(L['3ss']*sl**2*cp**2 + L['4ss']*sl**2*sp*cp) + S*C*cp*(L['5s']*sl + L['5sc']*sl*cl) + S*C*sp*(L['6s']*sl + L['6sc']*sl*cl))
        for X, lam_ in (('L', -1), ('R', 1)):
            H = {(l, 0): ta['Aperp0', X] - l*ta['Apara0', X] for l in (1, -1)}
            H.update({(l, l): -(ta['Aperp1', X] + l*ta['Apara1', X]) for l in (1, -1)})
            H.update({(3*l, l): -(ta['Bperp1', X] + l*ta['Bpara1', X]) for l in (1, -1)})
            for Jz in (1, -1):
                for lN in (1, -1):
                    a = sum(H[k]*DH[k[0], lN]*D1[k[1], lam_]*{3: co(e)*co(e), 1: co(e), -1: 1, -3: e}[k[0]] for k in H if k[0] - 2*k[1] == Jz)
                    total = total + br*sq(a)/(1 + T**2)
    v.ensure('distribution', v.eq(dist, total))


def lambda_setup(v, amplitudes=True):
    """baryonic modes: transversity amplitudes as arbitrary functions of q2 and of CP conjugation"""
    phys.ckm_contract(v)
    phys.masses_contract(v)
    par, wc = v.par(), phys.wcs(v, scale=0.3)
    if amplitudes:
        for M, mod in LMOD.items():
            v.contract(getattr(mod, GETTA[M]), lambda q2, wc_obj, par, lep, cp_conjugate, M=M:
                       {(k, X): v.ufc('%s %s %s' % (M, k, X), q2, lep, str(bool(cp_conjugate))) for k in TA[M] for X in 'LR'})
    return par, wc


def lambda_terms(v, M, par, wc, lep, q2, cp):
    """total and longitudinal rate, leptonic forward-backward difference; for the Lambda also the hadronic and combined ones (not CP averaged)"""
    t = getattr(LMOD[M], GETTA[M])(q2, wc, par, lep, cp_conjugate=cp)
    L = [k for k in TA[M] if k.endswith('0')]
    r = {'G': sum(sq(x) for x in t.values()), 'FL': sum(sq(x) for k, x in t.items() if k[0] in L)}
    s = {'L': -1, 'R': 1}
    pair = lambda a, b, X: (t[a, X]*co(t[b, X])).real
    if M == 'Lambda':
        al = par['Lambda->ppi alpha_-']
        r['AFBl'] = -v.num('3/2')*sum(s[X]*pair('perp1', 'para1', X) for X in 'LR')
        r['AFBh'] = al*sum(pair('perp1', 'para1', X) + pair('perp0', 'para0', X) for X in 'LR')
        r['AFBlh'] = -v.num('3/8')*al*sum(s[X]*(sq(t['perp1', X]) + sq(t['para1', X])) for X in 'LR')
    else:
        br = par['BR(Lambda(1520)->NKbar)_exp']/2
        r = {k: br*x for k, x in r.items()}
        r['AFBl'] = v.num('3/2')*br*sum(s[X]*(pair('Aperp1', 'Apara1', X) + pair('Bperp1', 'Bpara1', X)) for X in 'LR')
        r['AFBh'] = r['AFBlh'] = 0
    return r


LOBS = ('FL', 'AFBl', 'AFBh', 'AFBlh')
KEYS5 = ['1c', '1cc', '1ss', '2c', '2cc', '2ss', '3ss', '4ss', '5s', '5sc', '6s', '6sc']


@harness('C21', targets=[LL + f for f in ('get_obs', 'dGdq2', 'FL_num', 'AFBl_num', 'AFBh_num', 'AFBlh_num', 'dbrdq2', 'dbrdq2_func', 'obs_ratio_func')] +
         [L5 + f for f in ('get_obs', 'dGdq2', 'S', 'A', 'FL_num', 'AFBl_num', 'AFBh', 'AFBlh', 'dbrdq2_func', 'obs_ratio_func')],
         uses=[LL + 'get_transverity_amps', L5 + 'get_transversity_amps'], max_paths=60, time_limit=300, shard=('baryon', 2), native_n=4)
def lambda_observables(v):
    """baryonic modes at fixed q2: rate, polarisation, asymmetries; CP average and CP asymmetry of the angular coefficients; nothing outside the physical range"""
    M, lep = v.choice('baryon', list(LMOD)), v.choice('lepton', ['e', 'mu'])
    par, wc = lambda_setup(v)
    mLb, mL, ml = par['m_Lambdab'], par['m_' + M], par['m_' + lep]
    q2 = v.real('q2', pos=True, dom=(2, 6))
    v.assume_(v.gt(mLb, mL))
    v.assume_(v.ge(q2, 4*ml**2))
    v.assume_(v.ge((mLb - mL)**2, q2))
    o = lambda n, x=q2: pred('%s(Lambdab->%s%s%s)' % (n, M, lep, lep), par, wc, x)
    r = [lambda_terms(v, M, par, wc, lep, q2, cp) for cp in (False, True)]
    r = r[0] if M == 'Lambda' else {k: (r[0][k] + r[1][k])/2 for k in r[0]}
    v.nonzero(r['G'])
    v.ensure('rate', v.eq(o('dBR/dq2'), par['tau_Lambdab']*r['G']))
    for n in LOBS:
        if M == 'Lambda' or 'h' not in n:
            v.nonzero(r[n])
        v.ensure(n, v.eq(o(n)*r['G'], r[n], scale=r['G']))
    names = list(LOBS)
    if M != 'Lambda':
        br = par['BR(Lambda(1520)->NKbar)_exp']/2
        K, Kb = (lambdablambda1520ll.angular_coefficients(lambdablambda1520ll.get_transversity_amps(q2, wc, par, lep, cp_conjugate=cp), br) for cp in (False, True))
        for k in KEYS5:
            for a, s in (('S', 1), ('A', -1)):
                x = (K[k] + s*Kb[k])/2
                v.nonzero(x)
                v.ensure('%s_%s' % (a, k), v.eq(o('%s_%s' % (a, k))*r['G'], x, scale=r['G']))
        names += ['S_1cc', 'A_1cc']
    d = v.real('d', pos=True, dom=(0.0001, 0.1))
    for n in ('dBR/dq2', *names):
        v.ensure(n + ' below', v.eq(o(n, 4*ml**2*(1 - d/(1 + d))), 0))
        v.ensure(n + ' above', v.eq(o(n, (mLb - mL)**2 + d), 0))


@harness('C21', targets=[LL + f for f in ('dbrdq2_int', 'dbrdq2_int_func', 'obs_int', 'obs_int_ratio_func')] + [L5 + f for f in ('obs_int', 'dbrdq2_int_func', 'obs_int_ratio_func')],
         uses=[LL + 'get_obs', L5 + 'get_obs'], max_paths=60, time_limit=300, native_n=2)
def lambda_binned(v):
    """baryonic modes: binned rates are averages, other binned observables ratios of integrals"""
    M, lep = v.choice('baryon', list(LMOD)), v.choice('lepton', ['e', 'mu'])
    par, wc = lambda_setup(v)
    names = {}

    def obs(function, q2, wc_obj, par, lep, *a):
        return v.uf('obs %s %s %s' % (function.__module__.split('.')[-1], function.__name__, a if function.__name__ in 'SA' else ''), q2, lep)
    for mod in LMOD.values():
        v.contract(mod.get_obs, obs)
    mod = LMOD[M]
    quad = phys.integral_contract(v)
    x = v.real('x', pos=True, dom=(1.5, 3))
    y = x + v.real('w', pos=True, dom=(1, 3))
    o = lambda n: pred('<%s>(Lambdab->%s%s%s)' % (n, M, lep, lep), par, wc, x, y)
    G = quad(lambda q: mod.get_obs(mod.dGdq2, q, wc, par, lep), x, y)
    v.nonzero(G)
    v.ensure('rate', v.eq(o('dBR/dq2')*(y - x), par['tau_Lambdab']*G, tol=0.02))
    num = {'FL': (mod.FL_num,), 'AFBl': (mod.AFBl_num,)}
    num.update({'AFBh': (mod.AFBh_num,), 'AFBlh': (mod.AFBlh_num,)} if M == 'Lambda' else {'%s_%s' % (a, k): (getattr(mod, a), k) for a in 'SA' for k in KEYS5})
    for n, (f, *a) in num.items():
        if not v.sym and n[:2] in ('S_', 'A_') and n[2:] != '1ss':
            continue
        z = quad(lambda q: mod.get_obs(f, q, wc, par, lep, *a), x, y)
        v.nonzero(z)
        v.ensure(n, v.eq(o(n)*G, z, tol=0.02, scale=G))


@harness('C21', targets=[LL + f for f in ('get_ff', 'prefactor', 'get_transverity_amps_ff', 'get_subleading', 'get_transverity_amps')] +
         [L5 + f for f in ('get_ff', 'prefactor', 'get_transversity_amps_ff', 'get_transversity_amps')],
         uses=[W + 'wctot_dict', W + 'get_wceff', 'flavio.classes.AuxiliaryQuantity.prediction', LL + 'transverity_amps', L5 + 'transversity_amps'],
         max_paths=100, time_limit=300, shard=('baryon', 2), native_n=6)
def lambda_amplitudes(v):
    """amplitudes of the baryonic modes and of the CP-conjugate decays: normalisation, all weak phases conjugated, hadronic corrections below 9 and above 14 GeV^2"""
    M, lep = v.choice('baryon', list(LMOD)), v.choice('lepton', ['e', 'mu'])
    cp = v.boolean('cp')
    par, wc = lambda_setup(v, False)
    mod = LMOD[M]

    def tot(wc_obj, sector, scale, par, nf_out=5):
        return {k: v.cplx('tot.' + k) for k in [x + sector for x in ('C9_', 'C10_', 'C9p_', 'C10p_')] + [x + sector[:2] for x in ('C7eff_', 'C7effp_')]}

    def eff(q2, wc, par, B, Mm, lep, scale):
        ll = 'bs' + lep + lep
        a = [q2, wc['C9_' + ll], wc['C10_' + ll], wc['C7eff_bs'], par['gamma'], B, Mm, lep]
        return {k: v.ufc('eff.' + k, *a) for k in EFF}
    v.contract(wilsoncoefficients.wctot_dict, tot)
    v.contract(wilsoncoefficients.get_wceff, eff)

    def aux(self, par_dict, wc_obj, *args, **kw):
        q2 = kw.get('q2', args[0] if args else None)
        if self.name.endswith('form factor'):
            return {k: v.uf('ff %s %s' % (self.name, k), q2) for k in LFF[M]}
        return {(k, X): v.ufc('%s %s %s' % (self.name, k, X), q2, par_dict['gamma'], str(bool(kw.get('cp_conjugate')))) for k in TA[M] for X in 'LR'}
    v.contract(AuxiliaryQuantity.prediction, aux)
    # proved in lambda_transversity: linear in the normalisation and the coefficients
    hel = lambda q2, mLb, mL, ff: {'ff': ff, 'q2': q2}
    v.contract(mod.helicity_amps, hel)

    def ta(ha, q2, mLb, mL, mqh, *a):
        C, N = (a[1], a[2]) if M == 'Lambda' else (a[0], a[1])
        f = ha['ff'][LFF[M][0]]
        return {(k, X): N*sum(C[n]*v.uf('amp %s %s %s' % (n, k, X), q2, mLb, mL, mqh, f) for n in EFF) for k in TA[M] for X in 'LR'}
    v.contract(lambdablambdall.transverity_amps if M == 'Lambda' else lambdablambda1520ll.transversity_amps, ta)
    r = v.choice('region', ['low', 'mid', 'high'])
    q2 = v.real('q2', pos=True, dom={'low': (1, 8.5), 'mid': (9.1, 13.9), 'high': (14.2, 16)}[r])
    if r == 'low':
        v.assume_(v.ge(9, q2))
    else:
        v.assume_(v.gt(q2, 9 if r == 'mid' else 14))
        if r == 'mid':
            v.assume_(v.ge(14, q2))
    scale = config['renormalization scale']['lambdab']
    mLb, mL, mb = par['m_Lambdab'], par['m_' + M], running.get_mb(par, scale)
    la = lam(mLb**2, mL**2, q2)
    v.assume_(v.gt(la, 0))
    p = conjugate_par(par) if cp else par
    t = wilsoncoefficients.wctot_dict(wc, 'bs' + lep + lep, scale, par)
    if cp:
        names = [x + 'bs' + lep + lep for x in ('C9_', 'C10_', 'C9p_', 'C10p_')] + ['C7eff_bs', 'C7effp_bs'] if v.sym else list(t)
        t = {k: co(t[k]) for k in names}
    C = wilsoncoefficients.get_wceff(q2, t, p, 'Lambdab', M, lep, scale)
    ff = AuxiliaryQuantity['Lambdab->%s form factor' % M].prediction(par_dict=par, wc_obj=None, q2=q2)
    s4 = v.fsqrt(v.fsqrt(la)) if not v.sym else la**0.25
    N = par['GF']*ckm.xi('t', 'bs')(p)*running.get_alpha(par, scale)['alpha_e']*v.fsqrt(q2)*s4/32/v.fsqrt(6*mLb**3*v.pi**5)
    ref = dict(tamps(lambdablambdall.transverity_amps if M == 'Lambda' else lambdablambda1520ll.transversity_amps, mod.helicity_amps(q2, mLb, mL, ff), q2, mLb, mL, mb, C, N))
    if M == 'Lambda' and r != 'mid':
        x = AuxiliaryQuantity['Lambdab->Lambdall subleading effects at %s q2' % r].prediction(par_dict=par, wc_obj=wc, q2=q2, cp_conjugate=cp)
        ref = {k: ref[k] + x[k] for k in ref}
    got = getattr(mod, GETTA[M])(q2, wc, par, lep, cp_conjugate=cp)
    sc = sum(abs(x) for x in ref.values()) if not v.sym else None
    for k in ref:
        v.ensure('%s %s' % k, v.eq(got[k], ref[k], scale=sc))
