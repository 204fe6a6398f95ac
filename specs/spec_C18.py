"""C18 charged-current leptonic and semi-leptonic decay rates with arbitrary new physics, against the literature formulae"""
from vf.api import harness
from vf import phys
import flavio
from flavio.classes import Observable, AuxiliaryQuantity
from flavio.physics.running import running
from flavio.physics.bdecays import bplnu, bvlnu, blnu, wilsoncoefficients
from flavio.physics.ckm import get_ckm
from flavio.config import config

LEP = ('e', 'mu', 'tau')
W = 'flavio.physics.bdecays.wilsoncoefficients.'


def sq(z):
    return z.real**2 + z.imag**2


def re(a, b):
    return a.real*b.real + a.imag*b.imag


def sm_contract(v):
    """the SM coefficient: real, positive, a function of the scale and the number of flavours (see cvl_sm)"""
    def h(par, scale, nf):
        return cvl(v, scale, nf)
    v.contract(wilsoncoefficients.get_CVLSM, h)


def cvl(v, scale, nf):
    return v.uf('CVLSM', scale, 'c' if nf >= 4 else 'uds', pos=True, dom=(0.9, 1.2))


def setup(v, lep, scale=None, qq=None):
    """arbitrary parameters, form factors and new-physics coefficients; the coefficients with a different neutrino flavour
    are either all zero or generic (code shortcuts an exactly vanishing set)"""
    phys.ckm_contract(v)
    phys.masses_contract(v)
    phys.ff_contract(v)
    sm_contract(v)
    if v.choice('violation', [True, False]):
        wc = phys.wcs(v)
        if qq:
            for nu in LEP:
                if nu != lep:
                    v.assume_(v.gt(wc.val('CVL_%s%snu%s' % (qq, lep, nu), scale).real, 0))
    else:
        wc = phys.wcs(v, keep=lambda n: n.endswith('%snu%s' % (lep, lep)))
    return v.par(), wc


def coeffs(v, par, wc, qq, lep, nu, scale, nf):
    """1+C_VL, C_VR, C_SR, C_SL, C_T of the effective Hamiltonian for q -> q' l nu"""
    n = qq + lep + 'nu' + nu
    d = wc.get_wc(n, scale, par)
    g = lambda x: d['C%s_%s' % (x, n)]
    return (g('VL') + (wilsoncoefficients.get_CVLSM(par, scale, nf) if lep == nu else 0), g('VR'), g('SR'), g('SL'), g('T'))


def pred(name, par, wc, *a):
    return Observable[name].prediction_par(par, wc, *a)


def form(par, name, q2):
    return AuxiliaryQuantity[name + ' form factor'].prediction(par, None, q2=q2)


def kin(v, par, B, M, lep, dom=(1.8, 2.6)):
    """arbitrary masses; q2 = s^2 anywhere between the end points"""
    mB, m, ml, s = par['m_'+B], par['m_'+M], par['m_'+lep], v.real('s', pos=True, dom=dom)
    v.assume_(v.gt(mB, m))
    v.assume_(v.gt(s, ml))
    v.assume_(v.gt(s**2, ml**2))
    v.assume_(v.gt(mB - m, s))
    la = mB**4 + m**4 + s**4 - 2*(mB**2*m**2 + mB**2*s**2 + m**2*s**2)
    v.assume_(v.gt(la, 0))
    return mB, m, ml, s, la


def rate_p(v, par, mB, m, ml, s, la, Vij, cs, ff, dm):
    """dGamma/dq2 for P -> P' l nu (arXiv:1309.0301 eq. (10), any new physics)"""
    q2, sl = s**2, v.fsqrt(la)
    VL, VR, SR, SL, T = cs
    H0, Ht, HS, HT = sl/s*ff['f+'], (mB**2 - m**2)/s*ff['f0'], (mB**2 - m**2)/dm*ff['f0'], -sl*ff['fT']/(mB + m)
    V, S = VL + VR, SR + SL
    x = ml**2/q2
    return (par['GF']**2*sq(Vij)/(192*v.pi**3*mB**3)*q2*sl*(1 - x)**2*(
        sq(V)*((1 + x/2)*H0**2 + 3*x*Ht**2/2) + 3*sq(S)*HS**2/2 + 8*sq(T)*(1 + 2*x)*HT**2
        + 3*re(V, S)*ml/s*HS*Ht - 12*re(V, T)*ml/s*HT*H0))


def rate_v(v, par, mB, m, ml, s, la, Vij, cs, ff, sm, part):
    """dGamma/dq2 for P -> V l nu (arXiv:1309.0301 eq. (11)), longitudinal or transverse part"""
    q2, sl = s**2, v.fsqrt(la)
    VL, VR, SR, SL, T = cs
    x = ml**2/q2
    if part == 'L':
        H0, Ht = -8*mB*m/s*ff['A12'], -sl/s*ff['A0']
        HS, HT0 = -sl*ff['A0']/sm, -4*mB*m/(mB + m)*ff['T23']
        D = VL - VR
        br = (sq(D)*((1 + x/2)*H0**2 + 3*x*Ht**2/2) + 3*sq(SR - SL)*HS**2/2 + 8*sq(T)*(1 + 2*x)*HT0**2
              + 3*re(D, SR - SL)*ml/s*HS*Ht - 12*re(D, T)*ml/s*HT0*H0)
    else:
        Hp, Hm = ((mB + m)*ff['A1'] + e*sl*ff['V']/(mB + m) for e in (-1, 1))
        Tp, Tm = ((e*(mB**2 - m**2)*ff['T2'] + sl*ff['T1'])/s for e in (1, -1))
        br = ((sq(VL) + sq(VR))*(1 + x/2)*(Hp**2 + Hm**2) - 4*re(VL, VR)*(1 + x/2)*Hp*Hm + 8*sq(T)*(1 + 2*x)*(Tp**2 + Tm**2)
              - 12*re(VL, T)*ml/s*(Tp*Hp - Tm*Hm) + 12*re(VR, T)*ml/s*(Tp*Hm - Tm*Hp))
    return par['GF']**2*sq(Vij)/(192*v.pi**3*mB**3)*q2*sl*(1 - x)**2*br


P_MODES = {'B+->D': ('B+', 'D0', 'bc', 1), 'B0->D': ('B0', 'D+', 'bc', 1), 'B+->pi': ('B+', 'pi0', 'bu', '1/2'), 'B0->pi': ('B0', 'pi+', 'bu', 1)}
V_MODES = {'B0->D*': ('B0', 'D*+', 'bc', 1), 'B+->D*': ('B+', 'D*0', 'bc', 1), 'B0->rho': ('B0', 'rho+', 'bu', 1),
           'B+->rho': ('B+', 'rho0', 'bu', '1/2'), 'B+->omega': ('B+', 'omega', 'bu', '1/2'), 'Bs->K*': ('Bs', 'K*+', 'bu', 1)}
FFN = {'D0': 'B->D', 'D+': 'B->D', 'pi0': 'B->pi', 'pi+': 'B->pi', 'D*+': 'B->D*', 'D*0': 'B->D*', 'rho+': 'B->rho', 'rho0': 'B->rho',
       'omega': 'B->omega', 'K*+': 'Bs->K*'}


@harness('C18', targets=['flavio.physics.bdecays.bplnu.dBRdq2', 'flavio.physics.bdecays.bplnu.get_angularcoeff', W+'get_wceff_fccc',
                         'flavio.physics.bdecays.angular.helicity_amps_p', 'flavio.physics.bdecays.angular.angularcoeffs_general_p'],
         max_paths=300, time_limit=600, total=800, z3_ms=3000)
def bplnu_rate(v):
    """d BR/dq2 of B -> P l nu is the literature formula summed over the three neutrino flavours"""
    mode = v.choice('mode', list(P_MODES))
    lep = v.choice('lepton', LEP)
    B, P, qq, iso = P_MODES[mode]
    par, wc = setup(v, lep, config['renormalization scale']['bpll'], qq)
    mB, m, ml, s, la = kin(v, par, B, P, lep)
    scale = config['renormalization scale']['bpll']
    dm = running.get_mb(par, scale) - (running.get_mc(par, scale) if qq == 'bc' else 0)
    v.assume_(v.gt(dm, 0))
    got = pred('dBR/dq2(%s%snu)' % (mode, lep), par, wc, s**2)
    ff = form(par, FFN[P], s**2)
    Vij = get_ckm(par)[{'bu': 0, 'bc': 1}[qq], 2]
    ref = sum(rate_p(v, par, mB, m, ml, s, la, Vij, coeffs(v, par, wc, qq, lep, nu, scale, 5), ff, dm) for nu in LEP)
    v.ensure('rate', v.eq(got, par['tau_'+B]*ref*v.num(iso)))


@harness('C18', targets=['flavio.physics.bdecays.bvlnu.dBRdq2', 'flavio.physics.bdecays.bvlnu.get_angularcoeff', W+'get_wceff_fccc',
                         'flavio.physics.bdecays.angular.helicity_amps_v', 'flavio.physics.bdecays.angular.angularcoeffs_general_v'],
         max_paths=300, time_limit=800, total=850, z3_ms=3000)
def bvlnu_rate(v):
    """longitudinal, transverse and total d BR/dq2 of B -> V l nu are the literature formulae summed over the neutrino flavours"""
    mode = v.choice('mode', list(V_MODES))
    lep = v.choice('lepton', LEP)
    B, V, qq, iso = V_MODES[mode]
    par, wc = setup(v, lep, config['renormalization scale']['bvll'], qq)
    mB, m, ml, s, la = kin(v, par, B, V, lep)
    scale = config['renormalization scale']['bvll']
    sm = running.get_mb(par, scale) + (running.get_mc(par, scale) if qq == 'bc' else 0)
    ff = form(par, FFN[V], s**2)
    Vij = get_ckm(par)[{'bu': 0, 'bc': 1}[qq], 2]
    tot = 0
    for part in 'LT':
        got = pred('dBR_%s/dq2(%s%snu)' % (part, mode, lep), par, wc, s**2)
        ref = sum(rate_v(v, par, mB, m, ml, s, la, Vij, coeffs(v, par, wc, qq, lep, nu, scale, 5), ff, sm, part) for nu in LEP)
        v.ensure('rate ' + part, v.eq(got, par['tau_'+B]*ref*v.num(iso)))
        tot = tot + got
    v.ensure('rate', v.eq(pred('dBR/dq2(%s%snu)' % (mode, lep), par, wc, s**2), tot))


# ------------------------------------------------------------------ the SM coefficient
@harness('C18', targets=[W+'get_CVLSM'])
def cvl_sm(v):
    """short-distance electroweak enhancement: 1 + alpha/pi log(mZ/mu) for c and b decays, a constant for light quarks"""
    phys.masses_contract(v)
    par = v.par()
    scale = v.real('scale', pos=True, dom=(1., 6.))
    a = running.get_alpha(par, scale)['alpha_e']
    for nf in (4, 5):
        v.ensure('nf=%d' % nf, v.eq(wilsoncoefficients.get_CVLSM(par, scale, nf), 1 + a/v.pi*v.flog(par['m_Z']/scale)))
    v.ensure('nf=3', v.eq(wilsoncoefficients.get_CVLSM(par, scale, 3)**2, v.num('1.0232')))


# ------------------------------------------------------------------ leptonic decays
LEPTONIC = {'B+': ('B+', 'bu', 0, 2, 5, 'mb', None, 'bll'), 'Bc': ('Bc', 'bc', 1, 2, 5, 'mb', 'mc', 'bll'),
            'D+': ('D+', 'dc', 1, 0, 4, 'md', 'mc', 'dll'), 'Ds': ('Ds', 'sc', 1, 1, 4, 'ms', 'mc', 'dll'),
            'K+': ('K+', 'su', 0, 1, 3, 'ms', 'mu', None), 'pi+': ('pi+', 'du', 0, 0, 3, 'md', 'mu', None)}


def mass(par, n, scale):
    return getattr(running, 'get_'+n)(par, scale) if n else 0


def leptonic(v, par, wc, P, lep, gf=1):
    """Gamma(P -> l nu) summed over neutrino flavours, arbitrary new physics"""
    M, qq, i, j, nf, q1, q2, sc = LEPTONIC[P]
    scale = config['renormalization scale'][sc] if sc else par['m_rho0']
    ml, mP = par['m_'+lep], par['m_'+M]
    mq = mass(par, q1, scale) + mass(par, q2, scale)
    tot = 0
    for nu in LEP:
        n = qq + lep + 'nu' + nu
        d = wc.get_wc(n, scale, par, nf_out=nf)
        r = d['CVL_'+n] - d['CVR_'+n] + mP**2/(ml*mq)*(d['CSR_'+n] - d['CSL_'+n])
        if nu == lep:
            r = r + wilsoncoefficients.get_CVLSM(par, scale, nf)*gf
        tot = tot + sq(r)
    return par['GF']**2*par['f_'+M]**2*mP*ml**2*(1 - ml**2/mP**2)**2/(8*v.pi)*sq(get_ckm(par)[i, j])*tot


def gf_contract(v):
    """new physics in muon decay changes the Fermi constant extracted from it: see fermi_constant"""
    from flavio.physics.taudecays import taulnunu
    v.contract(taulnunu.GFeff, lambda wc_obj, par: v.uf('GFeff', par['GF'], pos=True, dom=(1.1e-5, 1.2e-5)))
    from flavio.physics.kdecays import klnu
    v.contract(klnu.delta_Plnu, lambda par, P, lep: v.uf('delta_Plnu.%s.%s' % (P, lep), par['m_e'], dom=(-0.01, 0.01)))


@harness('C18', targets=['flavio.physics.bdecays.blnu.br_plnu_general', 'flavio.physics.bdecays.blnu.br_blnu', 'flavio.physics.ddecays.dlnu.br_Dlnu'],
         max_paths=100)
def heavy_leptonic(v):
    """BR(P -> l nu) for B+, Bc, D+ and Ds: helicity suppressed vector and unsuppressed scalar contributions with the masses of the constituent quarks"""
    P = v.choice('meson', ['B+', 'Bc', 'D+', 'Ds'])
    lep = v.choice('lepton', LEP)
    phys.ckm_contract(v)
    phys.masses_contract(v)
    sm_contract(v)
    par, wc = v.par(), phys.wcs(v)
    got = pred('BR(%s->%snu)' % (P, lep), par, wc)
    v.ensure('rate', v.eq(got, par['tau_'+P]*leptonic(v, par, wc, P, lep)))


@harness('C18', targets=['flavio.physics.kdecays.klnu.br_plnu', 'flavio.physics.kdecays.klnu.r_plnu', 'flavio.physics.kdecays.klnu.gamma_plnu'], max_paths=60)
def light_leptonic(v):
    """K -> l nu and pi -> l nu; the SM part uses the Fermi constant with new physics in muon decay removed"""
    from flavio.physics.kdecays import klnu
    from flavio.physics.taudecays import taulnunu
    phys.ckm_contract(v)
    phys.masses_contract(v)
    sm_contract(v)
    gf_contract(v)
    par, wc = v.par(), phys.wcs(v)
    gf = taulnunu.GFeff(wc, par)/par['GF']
    G = lambda P, l: leptonic(v, par, wc, P, l, gf)*(1 + klnu.delta_Plnu(par, P, l))
    for P in ('K+', 'pi+'):
        for l in ('e', 'mu'):
            v.ensure('%s -> %s nu' % (P, l), v.eq(klnu.br_plnu(wc, par, P, l), par['tau_'+P]*G(P, l)))
    for l in ('e', 'mu'):
        v.ensure('BR(K->%snu)' % l, v.eq(pred('BR(K+->%snu)' % l, par, wc), par['tau_K+']*G('K+', l)))
    v.ensure('Gamma(pi->munu)', v.eq(pred('Gamma(pi+->munu)', par, wc), G('pi+', 'mu')))


@harness('C18', targets=['flavio.physics.kdecays.klnu.r_plnu', 'flavio.physics.kdecays.klnu.gamma_plnu'])
def light_leptonic_ratios(v):
    """the universality and pi/K ratios are ratios of the rates (with the resummed radiative correction 1.00055 for e/mu)"""
    from flavio.physics.kdecays import klnu
    par, wc = v.par(), phys.wcs(v, scale=0.01)
    v.contract(klnu.br_plnu, lambda wc_obj, par, P, lep: v.uf('br %s %s' % (P, lep), par['GF'], pos=True))
    br = lambda P, l: klnu.br_plnu(wc, par, P, l)
    rg = v.num('1.00055')
    v.ensure('Remu(K)', v.eq(pred('Remu(K+->lnu)', par, wc), rg*br('K+', 'e')/br('K+', 'mu')))
    v.ensure('Remu(pi)', v.eq(pred('BR(pi+->enu)', par, wc), rg*br('pi+', 'e')/br('pi+', 'mu')))
    for l in ('e', 'mu'):
        v.ensure('K/pi %s' % l, v.eq(pred('RKpi(P+->%snu)' % l, par, wc), br('K+', l)/br('pi+', l)*par['tau_pi+']/par['tau_K+']))


# ------------------------------------------------------------------ D and K semi-leptonic
D_MODES = {'D+->K': ('D+', 'K0', 'sc', 1, 1, 1, 'D->K'), 'D0->K': ('D0', 'K+', 'sc', 1, 1, 1, 'D->K'),
           'D+->pi': ('D+', 'pi0', 'dc', 1, 0, '1/2', 'D->pi'), 'D0->pi': ('D0', 'pi+', 'dc', 1, 0, 1, 'D->pi')}


@harness('C18', targets=['flavio.physics.ddecays.dplnu.dBRdq2', 'flavio.physics.ddecays.dplnu.get_angularcoeff', W+'get_wceff_fccc'],
         max_paths=100, time_limit=600, total=800, z3_ms=3000)
def dplnu_rate(v):
    """d BR/dq2 of D -> P l nu is the literature formula for the conjugate transition of the down-type quark"""
    mode = v.choice('mode', list(D_MODES))
    lep = v.choice('lepton', ('e', 'mu'))
    D, P, qq, i, j, iso, f = D_MODES[mode]
    scale = config['renormalization scale']['dpll']
    par, wc = setup(v, lep, scale, qq)
    mB, m, ml, s, la = kin(v, par, D, P, lep, dom=(0.3, 0.8))
    dm = mass(par, 'm'+qq[0], scale) - mass(par, 'mc', scale)
    v.assume_(v.gt(0, dm))
    got = pred('dBR/dq2(%s%snu)' % (mode, lep), par, wc, s**2)
    ref = sum(rate_p(v, par, mB, m, ml, s, la, get_ckm(par)[i, j], coeffs(v, par, wc, qq, lep, nu, scale, 4), form(par, f, s**2), dm) for nu in LEP)
    v.ensure('rate', v.eq(got, par['tau_'+D]*ref*v.num(iso)))


@harness('C18', targets=['flavio.physics.kdecays.kpilnu.dBRdq2', 'flavio.physics.kdecays.kpilnu.get_angularcoeff'],
         max_paths=100, time_limit=600, total=800, z3_ms=3000)
def kpilnu_rate(v):
    """d BR/dq2 of K -> pi l nu is the literature formula, with isospin and electromagnetic corrections"""
    from flavio.physics.kdecays import kpilnu
    K, P = v.choice('mode', [('KL', 'pi+'), ('KS', 'pi+'), ('K+', 'pi0')])
    lep = v.choice('lepton', ('e', 'mu'))
    nus = LEP if v.choice('violation', [False, True]) else [lep]
    phys.ckm_contract(v)
    phys.masses_contract(v)
    phys.ff_contract(v)
    sm_contract(v)
    par, wc = v.par(), phys.wcs(v, keep=None if len(nus) == 3 else lambda n: n.endswith('%snu%s' % (lep, lep)))
    mK, m, ml, s, la = kin(v, par, K, P, lep, dom=(0.15, 0.3))
    scale = par['m_rho0']
    em, si = v.real('em', dom=(0.9, 1.1)), v.real('iso', dom=(0.9, 1.1))
    par['K->pi delta_K+pi0'] = si - 1
    par['K%s%s3 delta_EM' % ('+' if K == 'K+' else '0', lep)] = em - 1
    got = kpilnu.dBRdq2(s**2, wc, par, K, P, lep)
    f = form(par, 'K->pi', s**2)
    ref = sum(rate_p(v, par, mK, m, ml, s, la, get_ckm(par)[0, 1], coeffs(v, par, wc, 'su', lep, nu, scale, 3), f, mass(par, 'ms', scale)) for nu in nus)
    v.ensure('rate', v.eq(got, par['tau_'+K]*em**2*ref*(si**2/2 if K == 'K+' else 1)))


@harness('C18', targets=['flavio.physics.kdecays.kpilnu.BR_tot', 'flavio.physics.kdecays.kpilnu.BR_binned'])
def kpilnu_total(v):
    """BR(K -> pi l nu) is the integral over the full range; 'l' is the mean of e and mu; nothing outside the physical range"""
    from flavio.physics.kdecays import kpilnu
    par, wc = v.par(), phys.smwc(v)
    K, P = v.choice('mode', [('KL', 'pi+'), ('KS', 'pi+'), ('K+', 'pi0')])
    for lep in ('e', 'mu'):
        v.ensure('outside %s' % lep, v.and_(v.eq(kpilnu.dBRdq2(par['m_'+lep]**2 - v.real('below', pos=True), wc, par, K, P, lep), 0),
                                            v.eq(kpilnu.dBRdq2((par['m_'+K] - par['m_'+P])**2 + v.real('above', pos=True), wc, par, K, P, lep), 0)))
    quad = phys.integral_contract(v)
    v.contract(kpilnu.dBRdq2, lambda q2, wc_obj, par, K, P, lep: v.uf('dBR %s %s %s' % (K, P, lep), q2))
    for lep in ('e', 'mu'):
        lo, hi = par['m_'+lep]**2, (par['m_'+K] - par['m_'+P])**2
        v.ensure('total %s' % lep, v.eq(pred('BR(%s->pi%snu)' % (K, lep), par, wc), quad(lambda q2: kpilnu.dBRdq2(q2, wc, par, K, P, lep), lo, hi)))
    v.ensure('mean', v.eq(2*pred('BR(%s->pilnu)' % K, par, wc), pred('BR(%s->pienu)' % K, par, wc) + pred('BR(%s->pimunu)' % K, par, wc)))


@harness('C18', targets=['flavio.physics.kdecays.kpilnu.logC', 'flavio.physics.kdecays.kpilnu.RT', 'flavio.physics.kdecays.lambdaplnu.g1_f1'], max_paths=40)
def kaon_shape(v):
    """K -> pi l nu form factor ratio at the Callan-Treiman point, tensor coupling and hyperon g1/f1; 'l' is the mean of e and mu"""
    phys.masses_contract(v)
    phys.ff_contract(v, positive=True)
    sm_contract(v)
    par, wc = v.par(), phys.wcs(v, scale=0.002)
    scale = par['m_rho0']
    ms = mass(par, 'ms', scale)
    lep = v.choice('lepton', ('e', 'mu', 'l'))
    if lep == 'l':
        for l in ('e', 'mu'):
            VL, VR, SR, SL, T = coeffs(v, par, wc, 'su', l, l, scale, 3)
            v.assume_(v.gt((VL + VR).real, 0))
            v.assume_(v.gt(1 + (par['m_KL']**2 - par['m_pi+']**2)/(par['m_'+l]*ms)*(SR + SL).real/(VL + VR).real, 0))
        for o in ('lnC(K->pi%snu)', 'RT(K->pi%snu)', 'g1/f1(Lambda->p%snu)'):
            v.ensure(o % 'l', v.eq(2*pred(o % 'l', par, wc), pred(o % 'e', par, wc) + pred(o % 'mu', par, wc)))
        return
    VL, VR, SR, SL, T = coeffs(v, par, wc, 'su', lep, lep, scale, 3)
    D = par['m_KL']**2 - par['m_pi+']**2
    v.assume_(v.gt(D, 0))
    V = (VL + VR).real
    v.assume_(v.gt(V, 0))
    C = 1 + D/(par['m_'+lep]*ms)*(SR + SL).real/V
    v.assume_(v.gt(V*par['m_'+lep]*ms + D*(SR + SL).real, 0))
    v.assume_(v.gt(C, 0))
    f, f0 = form(par, 'K->pi', D), form(par, 'K->pi', 0)
    v.ensure('ln C', v.eq(v.fexp(pred('lnC(K->pi%snu)' % lep, par, wc)), f['f0']*C/f0['f0']))
    v.ensure('RT', v.eq(pred('RT(K->pi%snu)' % lep, par, wc)*f0['f+']*(par['m_KL'] + par['m_pi+']), -4*par['m_KL']*f0['fT']*T.real))
    sc = config['renormalization scale']['kdecays']
    VL, VR, SR, SL, T = coeffs(v, par, wc, 'su', lep, lep, sc, 3)
    v.assume_(v.gt((VL + VR).real*par['Lambda->p f_1(0)'], 0))
    v.ensure('g1/f1', v.eq(pred('g1/f1(Lambda->p%snu)' % lep, par, wc)*par['Lambda->p f_1(0)']*(VL + VR).real,
                           par['Lambda->p g_1(0)']*(VL - VR).real))


# ------------------------------------------------------------------ tau decays
@harness('C18', targets=['flavio.physics.taudecays.taupnu.br_taupnu', 'flavio.physics.taudecays.common.GammaFsf'], max_paths=20)
def taupnu_rate(v):
    """BR(tau -> P nu) is the crossed leptonic decay, summed over neutrino flavours"""
    from flavio.physics.taudecays import taulnunu
    phys.ckm_contract(v)
    phys.masses_contract(v)
    sm_contract(v)
    gf_contract(v)
    par, wc = v.par(), phys.wcs(v)
    name, P, q, i = v.choice('mode', [('pi', 'pi+', 'd', 0), ('K', 'K+', 's', 1)])
    mP = par['m_'+P]
    mt = par['m_tau'] = mP + v.real('excess', pos=True, dom=(0.5, 2))
    scale = config['renormalization scale']['taudecays']
    mq = mass(par, 'm'+q, scale) + mass(par, 'mu', scale)
    tot = 0
    for nu in LEP:
        n = '%sutaunu%s' % (q, nu)
        d = wc.get_wc(n, scale, par, nf_out=4)
        r = d['CVL_'+n] - d['CVR_'+n] + mP**2/(mt*mq)*(d['CSR_'+n] - d['CSL_'+n])
        if nu == 'tau':
            r = r + wilsoncoefficients.get_CVLSM(par, scale, 4)*taulnunu.GFeff(wc, par)/par['GF']
        tot = tot + sq(r)
    ref = par['tau_tau']*par['GF']**2*sq(get_ckm(par)[0, i])*par['f_'+P]**2*mt**3/(16*v.pi)*(1 - mP**2/mt**2)**2*tot
    v.ensure('rate', v.eq(pred('BR(tau->%snu)' % name, par, wc), ref))


def michel(v, x, r, L, R):
    """rate of l1 -> l2 nu nu for left-left and left-right vector interactions, r = sqrt(x) = m2/m1, relative to mass^5/(3 2^9 pi^3)"""
    F = 1 - 8*x + 8*x**3 - x**4 - 12*x**2*v.flog(x)
    G = 1 + 9*x - 9*x**2 - x**3 + 6*x*(1 + x)*v.flog(x)
    return F*(sq(L) + sq(R)) - 4*r*G*re(L, R)


@harness('C18', targets=['flavio.physics.taudecays.taulnunu.BR_taulnunu_summed', 'flavio.physics.taudecays.taulnunu.GFeff'], max_paths=20)
def taulnunu_rate(v):
    """BR(tau -> l nu nu): sum over all neutrino flavours of the three-body rate; helicity-suppressed left-right interference"""
    from flavio.physics.taudecays import taulnunu
    phys.masses_contract(v)
    gf_contract(v)
    par, wc = v.par(), phys.wcs(v, scale=1e-5)
    lep = v.choice('lepton', ('e', 'mu'))
    scale = config['renormalization scale']['taudecays']
    mt, ml = par['m_tau'], par['m_'+lep]
    d = wc.get_wc({'e': 'nunutaue', 'mu': 'nunumutau'}[lep], scale, par, eft='WET-4')
    tot = 0
    for a in LEP:
        for b in LEP:
            k = 'nu%snu%stau%s' % (a, b, lep)
            if 'CVLL_'+k in d:
                L, R = d['CVLL_'+k], d['CVLR_'+k]
            else:
                k = 'nu%snu%s%stau' % (b, a, lep)
                L, R = d['CVLL_'+k].conjugate(), d['CVLR_'+k].conjugate()
            if b == 'tau' and a == lep:
                L = L - 4*taulnunu.GFeff(wc, par)/v.fsqrt(2)
            tot = tot + michel(v, ml**2/mt**2, ml/mt, L, R)
    em = 1 + running.get_alpha_e(par, scale)/(2*v.pi)*(v.num('25/4') - v.pi**2)
    v.ensure('rate', v.eq(pred('BR(tau->%snunu)' % lep, par, wc), par['tau_tau']*mt**5/(3*2**9*v.pi**3)*tot*em))


@harness('C18', targets=['flavio.physics.taudecays.taulnunu.GFeff'], max_paths=20)
def fermi_constant(v):
    """the Fermi constant that multiplies SM amplitudes reproduces the measured muon lifetime in the presence of new physics"""
    from flavio.physics.taudecays import taulnunu
    par, wc = v.par(), phys.wcs(v, scale=1e-6)
    x, r = par['m_e']**2/par['m_mu']**2, par['m_e']/par['m_mu']
    d = wc.get_wc('nunumue', config['renormalization scale']['mudecays'], par, eft='WET-3')
    sm = -4*par['GF']/v.fsqrt(2)
    full = michel(v, x, r, d['CVLL_numunueemu'] + sm, d['CVLR_numunueemu'])
    ref = michel(v, x, r, sm + 0*v.i(), 0*v.i())
    v.assume_(v.gt(ref, 0))
    v.assume_(v.gt(full, 0))
    g = taulnunu.GFeff(wc, par)
    v.ensure('measured width', v.eq(g**2*full, par['GF']**2*ref))
    v.ensure('positive', v.gt(g, 0))
    v.ensure('no new physics', v.eq(taulnunu.GFeff(phys.smwc(v), par), par['GF']))


# ------------------------------------------------------------------ distributions, averages, ratios built from the angular coefficients
JV = ('1s', '1c', '2s', '2c', '6s', '6c', 3, 4, 5, 7, 8, 9)
JP = ('a', 'b', 'c')
BV = 'flavio.physics.bdecays.bvlnu.'
BP = 'flavio.physics.bdecays.bplnu.'
DP = 'flavio.physics.ddecays.dplnu.'


def J_contract(v, mod, keys):
    """the angular coefficients (see bvlnu_rate, bplnu_rate, dplnu_rate) are real functions of q2"""
    def h(q2, wc_obj, par, B, M, lep):
        return {k: v.uf('J%s %s %s %s' % (k, B, M, lep), q2) for k in keys}
    v.contract(mod.get_angularcoeff, h)


def fourfold(v, J, cl, cV, phi):
    """d4Gamma/(dq2 dcos(theta_l) dcos(theta_V) dphi) of P -> V(-> P P) l nu; phi in units of pi/2, an integer"""
    sl, sV = v.fsqrt(1 - cl**2), v.fsqrt(1 - cV**2)
    cp, sp = {0: (1, 0), 1: (0, 1), 2: (-1, 0), 3: (0, -1)}[phi] if isinstance(phi, int) else (v.fcos(phi), v.fsin(phi))
    return v.num('9/32')/v.pi*(
        J['1s']*sV**2 + J['1c']*cV**2 + (J['2s']*sV**2 + J['2c']*cV**2)*(2*cl**2 - 1) + J[3]*sV**2*sl**2*(cp**2 - sp**2)
        + J[4]*2*sV*cV*2*sl*cl*cp + J[5]*2*sV*cV*sl*cp + (J['6s']*sV**2 + J['6c']*cV**2)*cl
        + J[7]*2*sV*cV*sl*sp + J[8]*2*sV*cV*2*sl*cl*sp + J[9]*sV**2*sl**2*2*sp*cp)


def simpson(f, a=-1, b=1):
    """exact for polynomials of degree 3"""
    return (f(a) + 4*f((a + b)*0.5 if a + b else 0) + f(b))*(b - a)/6


def over_phi(v, f):
    """exact for second order trigonometric polynomials without the third harmonics"""
    return v.pi/2*sum(f(k) for k in range(4))


def vrange(v, par, B, M, lep):
    lo, hi = par['m_'+lep]**2, (par['m_'+B] - par['m_'+M])**2
    v.assume_(v.gt(hi, lo))
    return lo, hi


@harness('C18', targets=[BV + f for f in ('dBR_dq2_dcosthl', 'dBR_dq2_dcosthl_binned', 'dBR_dq2_dcosthV', 'dBR_dq2_dcosthV_binned', 'dBR_dq2_dphi',
                                          'dBR_dq2_dphi_binned', 'dBRdq2')], uses=[BV + 'get_angularcoeff'], max_paths=60, native_n=6)
def bvlnu_angles(v):
    """one-dimensional angular distributions are the marginals of the four-fold distribution; binned = integral of differential; the full range gives the rate"""
    J_contract(v, bvlnu, JV)
    mode, lep = v.choice('mode', list(V_MODES)), v.choice('lepton', LEP)
    B, V, qq, iso = V_MODES[mode]
    par, wc = v.par(), phys.wcs(v)
    mB, m, ml, s, la = kin(v, par, B, V, lep)
    a = (wc, par, B, V, lep)
    J = bvlnu.get_angularcoeff(s**2, *a)
    c, p = v.real('c', dom=(-0.8, 0.8)), v.real('phi', dom=(0.2, 3.))
    v.assume_(v.and_(v.gt(c, -1), v.gt(1, c)))
    u = v.real('u', dom=(-0.8, 0.8))
    N = par['tau_'+B]*v.num(iso)
    ref = {'l': lambda x: N*over_phi(v, lambda f: simpson(lambda y: fourfold(v, J, x, y, f))),
           'V': lambda x: N*over_phi(v, lambda f: simpson(lambda y: fourfold(v, J, y, x, f))),
           'phi': lambda x: N*simpson(lambda z: simpson(lambda y: fourfold(v, J, z, y, x)))}
    fun = {'l': (bvlnu.dBR_dq2_dcosthl, bvlnu.dBR_dq2_dcosthl_binned, c, -1, 1), 'V': (bvlnu.dBR_dq2_dcosthV, bvlnu.dBR_dq2_dcosthV_binned, c, -1, 1),
           'phi': (bvlnu.dBR_dq2_dphi, bvlnu.dBR_dq2_dphi_binned, p, 0, 2*v.pi)}
    tot = {A: bvlnu.dBRdq2(s**2, *a, A) for A in (None, 'L', 'T')}
    v.ensure('total', v.eq(tot[None], N*over_phi(v, lambda f: simpson(lambda z: simpson(lambda y: fourfold(v, J, z, y, f))))))
    v.ensure('polarisations', v.eq(tot[None], tot['L'] + tot['T']))
    dV = lambda x: bvlnu.dBR_dq2_dcosthV(s**2, x, *a)
    v.ensure('longitudinal', v.and_(v.eq(dV(c)*4, 3*(tot['T']*(1 - c**2) + 2*tot['L']*c**2))))
    for k, (diff, binned, x, lo, hi) in fun.items():
        v.ensure('marginal %s' % k, v.eq(diff(s**2, x, *a), ref[k](x)))
        v.ensure('empty bin %s' % k, v.eq(binned(s**2, x, x, *a), 0))
        v.ensure('adjacent bins %s' % k, v.eq(binned(s**2, x, u, *a), binned(s**2, x, hi, *a) - binned(s**2, u, hi, *a)))
        v.ensure('bin is the integral %s' % k, v.eq(v.deriv(lambda y: binned(s**2, lo, y, *a), x), diff(s**2, x, *a), tol=1e-4))
        v.ensure('full range %s' % k, v.eq(binned(s**2, lo, hi, *a), tot[None]))
    for q2, n in ((ml**2 - v.real('below', pos=True), 'below'), ((mB - m)**2 + v.real('above', pos=True), 'above')):
        for k, (diff, binned, x, lo, hi) in fun.items():
            v.ensure('outside %s %s' % (n, k), v.and_(v.eq(diff(q2, x, *a), 0), v.eq(binned(q2, lo, x, *a), 0)))
        v.ensure('outside %s' % n, v.eq(bvlnu.dBRdq2(q2, *a, None), 0))


@harness('C18', targets=[BV + f for f in ('BR_tot', 'BR_binned', 'dBRdq2', 'FL_diff', 'FL_binned', 'Itot', 'Itot_norm', 'dBR_dcosthl', 'BR_binned_costhl', 'dBR_dcosthV',
                                          'BR_binned_costhV', 'dBR_dphi', 'BR_binned_phi')], uses=[BV + 'get_angularcoeff'], max_paths=60, native_n=2)
def bvlnu_integrated(v):
    """integrated observables are the integrals over the physical range of the distributions; 'l' is the mean of e and mu for rates"""
    J_contract(v, bvlnu, JV)
    quad = phys.integral_contract(v)
    mode, lep = v.choice('mode', list(V_MODES)), v.choice('lepton', LEP)
    B, V, qq, iso = V_MODES[mode]
    par, wc = v.par(), phys.wcs(v, scale=0.01)
    lo, hi = vrange(v, par, B, V, lep)
    a = (wc, par, B, V, lep)
    N = par['tau_'+B]*v.num(iso)
    J = lambda q2: bvlnu.get_angularcoeff(q2, *a)
    c, d = v.real('c', dom=(-0.8, 0.8)), v.real('d', dom=(-0.8, 0.8))
    o = lambda n, *x: pred('%s(%s%snu)' % (n, mode, lep), par, wc, *x)
    for n, diff, binned in (('cl', bvlnu.dBR_dq2_dcosthl, bvlnu.dBR_dq2_dcosthl_binned), ('cV', bvlnu.dBR_dq2_dcosthV, bvlnu.dBR_dq2_dcosthV_binned),
                            ('phi', bvlnu.dBR_dq2_dphi, bvlnu.dBR_dq2_dphi_binned)):
        v.ensure('dBR/d%s' % n, v.eq(o('dBR/d%s' % n, c), quad(lambda q2: diff(q2, c, *a), lo, hi)))
        v.ensure('<BR>/<%s>' % n, v.eq(o('<BR>/<%s>' % n, c, d), quad(lambda q2: binned(q2, c, d, *a), lo, hi)))
    for A in ('', '_L', '_T'):
        f = lambda q2: bvlnu.dBRdq2(q2, *a, A[1:] or None)
        v.ensure('BR%s' % A, v.eq(o('BR%s' % A), quad(f, lo, hi)))
    br = N*quad(lambda q2: bvlnu.dGdq2(J(q2)), lo, hi)
    v.assume_(v.gt(br, 0))
    v.ensure('FLtot', v.eq(o('FLtot')*br, o('BR_L')))
    fb = N*quad(lambda q2: v.num('3/8')*(2*J(q2)['6s'] + J(q2)['6c']), lo, hi)
    v.ensure('AFBtot', v.eq(o('AFBtot')*br, fb, tol=0.02, scale=br))
    v.ensure('AFBtot from the cos(theta_l) distribution', v.eq(o('AFBtot')*br, o('<BR>/<cl>', 0, 1) - o('<BR>/<cl>', -1, 0), tol=0.02, scale=br))
    v.ensure('FLttot', v.eq(o('FLttot')*br, -N*quad(lambda q2: J(q2)['2c'], lo, hi)))
    v.ensure('I3tot', v.eq(o('I3tot')*br, N*quad(lambda q2: J(q2)[3], lo, hi), tol=0.02, scale=br))


@harness('C18', targets=[BV + f for f in ('BR_binned', 'FL_binned', 'FL_diff', 'BR_binned_leptonflavour', 'BR_tot_leptonflavour', 'BR_tot', 'dBRdq2')], max_paths=80, native_n=2)
def bvlnu_averages(v):
    """binned rates and FL are ratios of integrals; lepton flavour ratios; 'l' is the mean of e and mu; normalised bin"""
    quad = phys.integral_contract(v)
    lp = ('e', 'mu', 'tau')
    v.contract(bvlnu.dBRdq2_lep, lambda q2, wc_obj, par, B, V, lep, A: v.uf('dBR%s %s %s %s' % (A or '', B, V, lep), q2, pos=True))
    averages(v, bvlnu, V_MODES, quad, lp, (None, 'L', 'T'), (('B->D*', 'B0->D*'), ('B->rho', 'B0->rho'), ('B+->omega', 'B+->omega'), ('Bs->K*', 'Bs->K*')),
             (('mu', 'e'), ('tau', 'mu'), ('tau', 'l')), ('<BR>/BR(B->D*taunu)', 'B0->D*'))


def averages(v, mod, modes, quad, leps, pols, lfu, pairs, norm):
    mode = v.choice('mode', list(modes))
    B, M = modes[mode][:2]
    par, wc = v.par(), phys.smwc(v)
    rng = {l: vrange(v, par, B, M, l) for l in leps}
    x, y = (v.real(n, dom=(4., 8.) if B[0] == 'B' else (0.2, 1.)) for n in 'xy')
    v.assume_(v.gt(y, x))
    for A in pols:
        n = '_' + A if A else ''
        args = (A,) if len(pols) > 1 else ()
        obs = lambda k, l, *q: pred('%s(%s%snu)' % (k.replace('BR', 'BR' + n), mode, l), par, wc, *q)
        f = {l: lambda q2, l=l: mod.dBRdq2_lep(q2, wc, par, B, M, l, *args) for l in leps}
        for l in leps:
            v.ensure('dBR%s %s' % (n, l), v.eq(obs('dBR/dq2', l, x), f[l](x)))
            v.ensure('<BR%s> %s' % (n, l), v.eq(obs('<BR>', l, x, y), quad(f[l], x, y)))
            v.ensure('BR%s %s' % (n, l), v.eq(obs('BR', l), quad(f[l], *rng[l])))
        for k, q in (('dBR/dq2', (x,)), ('<BR>', (x, y)), ('BR', ())):
            v.ensure('mean %s%s' % (k, n), v.eq(2*obs(k, 'l', *q), obs(k, 'e', *q) + obs(k, 'mu', *q)))
    if len(pols) > 1:
        for l in leps + ('l',):
            o = lambda k, *q: pred('%s(%s%snu)' % (k, mode, l), par, wc, *q)
            v.ensure('FL %s' % l, v.eq(o('FL', x)*o('dBR/dq2', x), o('dBR_L/dq2', x)))
            v.ensure('<FL> %s' % l, v.eq(o('<FL>', x, y)*o('<BR>', x, y), o('<BR_L>', x, y)))
            v.ensure('FLtot %s' % l, v.eq(o('FLtot')*o('BR'), o('BR_L')))
    for name, m in lfu:
        if m == mode:
            for a, b in pairs:
                v.ensure('R%s%s' % (a, b), v.eq(pred('R%s%s(%slnu)' % (a, b, name), par, wc)*pred('BR(%s%snu)' % (m, b), par, wc), pred('BR(%s%snu)' % (m, a), par, wc)))
                v.ensure('<R%s%s>' % (a, b), v.eq(pred('<R%s%s>(%slnu)' % (a, b, name), par, wc, x, y)*pred('<BR>(%s%snu)' % (m, b), par, wc, x, y),
                                                  pred('<BR>(%s%snu)' % (m, a), par, wc, x, y)))
    if norm and norm[1] == mode:
        v.ensure('normalised', v.eq(pred(norm[0], par, wc, x, y)*pred('BR(%staunu)' % mode, par, wc), pred('<BR>(%staunu)' % mode, par, wc, x, y)))


@harness('C18', targets=[BP + f for f in ('BR_binned', 'BR_binned_leptonflavour', 'BR_tot_leptonflavour', 'BR_tot', 'dBRdq2')], max_paths=80, native_n=3)
def bplnu_averages(v):
    """binned rates, lepton flavour ratios, 'l' as the mean of e and mu, normalised bin for B -> P l nu"""
    quad = phys.integral_contract(v)
    v.contract(bplnu.dBRdq2_lep, lambda q2, wc_obj, par, B, V, lep: v.uf('dBR %s %s %s' % (B, V, lep), q2, pos=True))
    averages(v, bplnu, P_MODES, quad, LEP, (None,), (('B->D', 'B0->D'), ('B->pi', 'B0->pi')), (('mu', 'e'), ('tau', 'mu'), ('tau', 'l')), ('<BR>/BR(B->Dtaunu)', 'B0->D'))


@harness('C18', targets=[DP + f for f in ('BR_binned', 'BR_binned_leptonflavour', 'BR_tot_leptonflavour', 'BR_tot', 'dBRdq2')], max_paths=80, native_n=3)
def dplnu_averages(v):
    """binned rates, lepton flavour ratios, 'l' as the mean of e and mu for D -> P l nu"""
    from flavio.physics.ddecays import dplnu
    quad = phys.integral_contract(v)
    v.contract(dplnu.dBRdq2_lep, lambda q2, wc_obj, par, B, V, lep: v.uf('dBR %s %s %s' % (B, V, lep), q2, pos=True))
    averages(v, dplnu, D_MODES, quad, ('e', 'mu'), (None,), (('D->K', 'D0->K'), ('D->pi', 'D0->pi')), (('mu', 'e'),), None)


@harness('C18', targets=[BP + 'dBRdq2', DP + 'dBRdq2'], uses=[BP + 'get_angularcoeff', DP + 'get_angularcoeff'], max_paths=60, native_n=6)
def pseudoscalar_range(v):
    """the rate to a pseudoscalar vanishes outside the physical range and is tau_P int dcos(theta) (a + b cos + c cos^2) inside"""
    from flavio.physics.ddecays import dplnu
    for mod in (bplnu, dplnu):
        J_contract(v, mod, JP)
    mode, lep = v.choice('mode', list(P_MODES) + list(D_MODES)), v.choice('lepton', ('e', 'mu'))
    mod = bplnu if mode in P_MODES else dplnu
    B, M, iso = (P_MODES[mode][0], P_MODES[mode][1], P_MODES[mode][3]) if mode in P_MODES else (D_MODES[mode][0], D_MODES[mode][1], D_MODES[mode][5])
    par, wc = v.par(), phys.wcs(v)
    mB, m, ml, s, la = kin(v, par, B, M, lep, dom=(1.8, 2.6) if mode in P_MODES else (0.3, 0.8))
    J = mod.get_angularcoeff(s**2, wc, par, B, M, lep)
    v.ensure('inside', v.eq(mod.dBRdq2(s**2, wc, par, B, M, lep), par['tau_'+B]*v.num(iso)*simpson(lambda z: J['a'] + J['b']*z + J['c']*z**2)))
    for q2, n in ((ml**2 - v.real('below', pos=True), 'below'), ((mB - m)**2 + v.real('above', pos=True), 'above')):
        v.ensure('outside %s' % n, v.eq(mod.dBRdq2(q2, wc, par, B, M, lep), 0))


# ------------------------------------------------------------------ inclusive B -> Xc l nu, Bc lifetime
BXL = 'flavio.physics.bdecays.bxlnu.'


def quark_rate(xc, xl):
    """quadratic form of the b -> c l nu rate in (VL, VR, SR, SL, T), normalised to 1 for VL and massless c, l:
    spin sums over Dirac matrices, integrated over the lepton angle and q2 by Gauss-Legendre quadrature"""
    import numpy as np
    s0, sx, sy, sz = np.eye(2), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.array([[1, 0], [0, -1]])
    g0 = np.kron(sz, s0)
    G = [g0] + [np.kron(np.array([[0, 1], [-1, 0]]), s) for s in (sx, sy, sz)]
    met = [1, -1, -1, -1]
    g5 = 1j*G[0] @ G[1] @ G[2] @ G[3]
    I, PL, PR = np.eye(4), (np.eye(4) - g5)/2, (np.eye(4) + g5)/2
    sig = {(m, n): 0.5j*(G[m] @ G[n] - G[n] @ G[m]) for m in range(4) for n in range(4)}
    V = lambda P: [(G[m] @ P, met[m]*G[m] @ PL) for m in range(4)]
    T = [(sig[m, n] @ PL, met[m]*met[n]*sig[m, n] @ PL) for m in range(4) for n in range(4)]
    ops = [V(PL), V(PR), [(PR, PL)], [(PL, PL)], T]
    slash = lambda p: sum(met[m]*p[m]*G[m] for m in range(4))
    bar = lambda M: g0 @ M.conj().T @ g0
    mc, ml = xc**0.5, xl**0.5

    def point(q2, c):
        pc = (((1 - xc - q2)**2 - 4*xc*q2)**0.5)/2
        E = 1 - (pc**2 + xc)**0.5
        q = q2**0.5
        gam, bg = E/q, pc/q
        k = (q2 - xl)/2/q
        el, s = (q2 + xl)/2/q, (1 - c*c)**0.5
        boost = lambda e, x, z: np.array([gam*e + bg*z, x, 0, gam*z + bg*e])
        l, n = boost(el, k*s, k*c), boost(k, -k*s, -k*c)
        b, pcv = np.array([1, 0, 0, 0]), np.array([1 - E, 0, 0, -pc])
        H = slash(pcv) + mc*I
        B = slash(b) + I
        L = slash(l) + ml*I
        N = slash(n)
        out = np.zeros((5, 5), complex)
        for i, a in enumerate(ops):
            for j, d in enumerate(ops):
                out[i, j] = sum(np.trace(H @ x @ B @ bar(y))*np.trace(L @ X @ N @ bar(Y)) for x, X in a for y, Y in d)
        return out*pc*(1 - xl/q2)
    t, w = np.polynomial.legendre.leggauss(24)
    lo, hi = xl, (1 - mc)**2
    tot = np.zeros((5, 5), complex)
    for ti, wi in zip(t, w):
        # q2 = lo + (hi-lo)*u(2-u): smooth at the endpoint
        u = (1 + ti)/2
        for cz, wz in ((-0.7745966692414834, 5/9), (0., 8/9), (0.7745966692414834, 5/9)):
            tot += wi/2*wz*2*(1 - u)*(hi - lo)*point(lo + (hi - lo)*u*(2 - u), cz)
    return tot


@harness('C18', targets=[BXL + f for f in ('g', 'gLR', 'gVS', 'gVSp')], level='bounded', native_only=True, native_n=6, note='run time only: random quark and lepton masses; quadrature accurate to about 1e-5')
def bxclnu_phase_space(v):
    """the phase space functions of the inclusive semileptonic rate are those of the free quark decay, for every pair of couplings"""
    from flavio.physics.bdecays import bxlnu
    xc, xl = v.real('xc', lo=0.03, hi=0.12, dom=(0.03, 0.12)), v.real('xl', lo=0.01, hi=0.2, dom=(0.01, 0.2))
    M = quark_rate(xc, xl)/quark_rate(1e-8, 1e-8)[0, 0].real
    g, gLR, gVS, gVSp = (f(xc, xl) for f in (bxlnu.g, bxlnu.gLR, bxlnu.gVS, bxlnu.gVSp))
    for i, j, x, n in ((0, 0, g, 'VL VL'), (1, 1, g, 'VR VR'), (2, 2, g/4, 'SR SR'), (3, 3, g/4, 'SL SL'), (4, 4, 12*g, 'T T'), (0, 1, -gLR/2, 'VL VR'),
                       (2, 3, gLR/4, 'SR SL'), (0, 2, gVS/2, 'VL SR'), (1, 3, gVS/2, 'VR SL'), (0, 3, gVSp/2, 'VL SL'), (1, 2, gVSp/2, 'VR SR'),
                       (0, 4, -6*gVSp, 'VL T'), (1, 4, 6*gVS, 'VR T'), (2, 4, 0, 'SR T'), (3, 4, 0, 'SL T')):
        v.ensure(n, v.eq(M[i, j].real, x, tol=2e-3, scale=g))
        v.ensure(n + ' hermitian', v.eq(M[i, j].imag, 0, tol=1e-6, scale=g))


@harness('C18', targets=[BXL + f for f in ('BR_BXclnu', '_BR_BXclnu', 'BR_tot_function', 'BR_tot_leptonflavour', 'BR_tot_leptonflavour_function')] + [W + 'get_wceff_fccc_std'],
         uses=[BXL + f for f in ('g', 'gLR', 'gVS', 'gVSp', 'pc1', 'pc2', 'd')], max_paths=60)
def bxclnu_rate(v):
    """inclusive B -> Xc l nu: quadratic form in the coefficients, summed over neutrino flavours, unchanged by a common phase; corrections factorise"""
    from flavio.physics.bdecays import bxlnu
    phys.ckm_contract(v)
    phys.masses_contract(v)
    sm_contract(v)
    if v.sym:
        v.contract(running.get_mb_KS, lambda par, scale: v.uf('mb kin', scale, pos=True))
        v.contract(running.get_alpha, lambda par, scale, nf_out=None: {'alpha_s': v.uf('alpha_s', scale, pos=True), 'alpha_e': v.uf('alpha_e', scale, pos=True)})
        for f in ('g', 'gLR', 'gVS', 'gVSp'):
            v.contract(getattr(bxlnu, f), lambda xc, xl, f=f: v.uf(f, xc, xl, pos=True))
        for f in ('pc1', 'pc2'):
            v.contract(getattr(bxlnu, f), lambda r, mb, f=f: v.uf(f, r, mb))
        v.contract(bxlnu.d, lambda xc: v.uf('d', xc))
    lep = v.choice('lepton', LEP)
    par, wc = v.par(), phys.wcs(v)
    none = phys.smwc(v)
    scale = config['renormalization scale']['bxlnu']
    mb = running.get_mb_KS(par, 1.)
    xl, xc = par['m_'+lep]**2/mb**2, running.get_mc(par, 3)**2/mb**2
    for nu in LEP:
        if nu != lep:
            v.assume_(v.gt(wc.val('CVL_bc%snu%s' % (lep, nu), scale).real, 0))
    g, gLR, gVS, gVSp = (f(xc, xl) for f in (bxlnu.g, bxlnu.gLR, bxlnu.gVS, bxlnu.gVSp))
    r = 0
    for nu in LEP:
        VL, VR, SR, SL, T = coeffs(v, par, wc, 'bc', lep, nu, scale, 5)
        r = r + (g*(sq(VL) + sq(VR) + (sq(SR) + sq(SL))/4 + 12*sq(T)) - gLR*re(VL, VR) + gLR*re(SR, SL)/2
                 + gVS*(re(VL, SR) + re(VR, SL) + 12*re(VR, T)) + gVSp*(re(VL, SL) + re(VR, SR) - 12*re(VL, T)))
    sm = g*wilsoncoefficients.get_CVLSM(par, scale, 5)**2
    got, ref = pred('BR(B->Xc%snu)' % lep, par, wc), pred('BR(B->Xc%snu)' % lep, par, none)
    v.ensure('new physics', v.eq(got*sm, ref*r, scale=ref*sm))
    # the Standard Model rate: mass dimension and power corrections
    Q = 1 + par['delta_BXlnu']
    al = running.get_alpha(par, scale, nf_out=5)['alpha_s']/v.pi
    g0 = bxlnu.g(xc, 0)
    pw = (1 + al*bxlnu.pc1(xc, mb) + al**2*bxlnu.pc2(xc, mb) - par['mu_pi^2']/(2*mb**2) + (v.num('1/2') - 2*(1-xc)**4/g0)*(par['mu_G^2'] - (par['rho_LS^3'] + par['rho_D^3'])/mb)/mb**2
          + bxlnu.d(xc)/g0*par['rho_D^3']/mb**3 + al*par['mu_pi^2']*0.071943 - al*par['mu_G^2']*0.114774)
    N = par['GF']**2*mb**5*sq(get_ckm(par)[1, 2])/(192*v.pi**3)*(par['tau_B0'] + par['tau_B+'])/2
    v.ensure('Standard Model', v.eq(ref, N*sm*pw*Q, scale=N*sm))


@harness('C18', targets=[BXL + f for f in ('BR_tot_function', 'BR_tot_leptonflavour', 'BR_tot_leptonflavour_function')], uses=[BXL + 'BR_BXclnu'], max_paths=20)
def bxclnu_averages(v):
    """the l mode is the average of electrons and muons, the ratios are ratios"""
    from flavio.physics.bdecays import bxlnu
    par, wc = v.par(), phys.wcs(v)
    if v.sym:
        v.contract(bxlnu.BR_BXclnu, lambda par, wc_obj, lep: v.uf('BR', lep, pos=True))
    b = {l: bxlnu.BR_BXclnu(par, wc, l) for l in LEP}
    b['l'] = (b['e'] + b['mu'])/2
    for l in b:
        v.ensure('BR ' + l, v.eq(pred('BR(B->Xc%snu)' % l, par, wc), b[l]))
    for n, d in (('mu', 'e'), ('tau', 'mu'), ('tau', 'l')):
        v.nonzero(b[d])
        v.ensure('R ' + n + d, v.eq(pred('R%s%s(B->Xclnu)' % (n, d), par, wc)*b[d], b[n]))


@harness('C18', targets=['flavio.physics.bdecays.bc_lifetime.tau_Bc'], max_paths=20)
def bc_lifetime(v):
    """the width of the Bc is the Standard Model width plus the new physics part of its leptonic widths"""
    phys.ckm_contract(v)
    phys.masses_contract(v)
    sm_contract(v)
    par, wc, none = v.par(), phys.wcs(v), phys.smwc(v)
    for p in ('tau_Bc', 'tau_Bc_SM'):
        v.nonzero(par[p])
    extra = sum(leptonic(v, par, wc, 'Bc', l) - leptonic(v, par, none, 'Bc', l) for l in LEP)
    got = pred('tau_Bc', par, wc)
    v.ensure('width', v.eq(got*(1 + par['tau_Bc_SM']*extra), par['tau_Bc_SM']))
