"""C16 electroweak pole observables (Z, W, Higgs): composition laws, gauge relations, asymmetry ranges"""
import math
from math import sqrt
from vf.api import harness
from vf.phys import wcs, smwc
import flavio
from flavio.physics.zdecays import gammaz, gammazsm, smeftew, afbz
from flavio.physics.wdecays import gammaw, mw
from flavio.physics.higgs import production, decay, width, signalstrength

Z = 'flavio.physics.zdecays.'
W = 'flavio.physics.wdecays.'
H = 'flavio.physics.higgs.'
LEP, NU, U, D = ['e', 'mu', 'tau'], ['nue', 'numu', 'nutau'], ['u', 'c'], ['d', 's', 'b']
ALL = LEP + U + D
SC = 1e-7      # size of dimension-6 coefficients in GeV^-2


def obs(name, wc, par):
    return flavio.Observable[name].prediction_par(par, wc)


def lin(par, wc, proc='zdecays'):
    """dictionary of Warsaw-basis coefficients at the Z scale"""
    return wc.get_wcxf(sector='all', scale=flavio.config['renormalization scale'][proc], par=par, eft='SMEFT', basis='Warsaw').dict


def ewpar(v):
    """0 < 4 pi alpha/(sqrt2 GF mZ^2) < 1: the weak mixing angle defined by the inputs exists"""
    par = v.par()
    c = 4*v.pi*par['alpha_e']/(v.fsqrt(2)*par['GF']*par['m_Z']**2)
    v.assume_(c < 1)
    v.assume_(c > 0)
    return par


# ------------------------------------------------------------------ Z: composition
def widths(v):
    """GammaZ(f1,f2) is an arbitrary function: contract"""
    wc = wcs(v, scale=SC)
    if v.sym:
        v.contract('flavio.physics.zdecays.gammaz:GammaZ', lambda wc_obj, par, f1, f2: v.uf('Gam', f1, f2, pos=True))
    return wc


@harness('C16', targets=[Z+'gammaz.Gammatot', Z+'gammaz.Gammahad', Z+'gammaz.Gammal', Z+'gammaz.GammaZnu', Z+'gammaz.sigmahad',
                         Z+'gammaz.Rl', Z+'gammaz.Rq', Z+'gammaz.Rq1q2', Z+'gammaz.Remutau', Z+'gammaz.GammaZ_fct', Z+'gammaz.BRZ_fct_av'],
         uses=[Z+'gammaz.GammaZ'])
def z_composition(v):
    """every composite Z observable is the stated combination of partial widths of all decay channels"""
    par, wc = ewpar(v), widths(v)
    g = {(a, b): gammaz.GammaZ(wc, par, a, b) for s in (LEP, NU, U, D) for a in s for b in s}
    for f in ALL:
        v.ensure('Gamma(Z->%s)' % (2*f), v.eq(obs('Gamma(Z->%s)' % (2*f), wc, par), g[f, f]))
    had = sum(g[a, b] for s in (U, D) for a in s for b in s)
    lep = sum(g[a, a] for a in LEP)
    inv = sum(g[a, b] for a in NU for b in NU)
    tot = had + lep + inv
    v.ensure('GammaZ', v.eq(obs('GammaZ', wc, par), tot))
    v.ensure('Gamma(Z->nunu)', v.eq(3*obs('Gamma(Z->nunu)', wc, par), inv))
    v.ensure('R_l', v.eq(obs('R_l', wc, par)*lep, 3*had))
    for f in LEP:
        v.ensure('R_'+f, v.eq(obs('R_'+f, wc, par)*g[f, f], had))
    for f in U + D:
        v.ensure('R_'+f, v.eq(obs('R_'+f, wc, par)*had, g[f, f]))
    v.ensure('R_uc', v.eq(obs('R_uc', wc, par)*had*2, g['u', 'u'] + g['c', 'c']))
    v.ensure('sigma_had', v.eq(obs('sigma_had', wc, par)*par['m_Z']**2*tot**2, 12*v.pi*g['e', 'e']*had))
    for a, b in (('e', 'mu'), ('e', 'tau'), ('mu', 'tau')):
        v.ensure('BR(Z->%s%s)' % (a, b), v.eq(obs('BR(Z->%s%s)' % (a, b), wc, par), par['tau_Z']*(g[a, b] + g[b, a])))


# ------------------------------------------------------------------ Z: partial widths
def real_diag(name):
    return False


@harness('C16', targets=[Z+'gammaz.GammaZ', Z+'gammaz.GammaZ_NP', Z+'smeftew.gV_SM', Z+'smeftew.gA_SM'],
         uses=[Z+'smeftew.d_gV', Z+'smeftew.d_gA', Z+'gammazsm.GammaZ_SM'], max_paths=100)
def z_width_square(v):
    """Gamma_ff - Gamma_ff^SM = N (|gV|^2-|gV_SM|^2+|gA|^2-|gA_SM|^2): the width is a sum of squared amplitudes"""
    par, wc = ewpar(v), wcs(v, scale=SC)
    f = v.choice('f', ALL + NU)
    if v.sym:
        v.contract(smeftew.d_gV, lambda f1, f2, par, C: v.ufc('dgV', f1, f2))
        v.contract(smeftew.d_gA, lambda f1, f2, par, C: v.ufc('dgA', f1, f2))
        v.contract(gammazsm.GammaZ_SM, lambda par, f: v.uf('GamSM', f, pos=True))
    C = lin(par, wc)
    gv, ga = smeftew.gV_SM(f, par), smeftew.gA_SM(f, par)
    dv, da = smeftew.d_gV(f, f, par, C), smeftew.d_gA(f, f, par, C)
    n = v.fsqrt(2)*par['GF']*par['m_Z']**3/(3*v.pi)*(3 if f in U + D else 1)
    ref = gammazsm.GammaZ_SM(par, f) + n*(abs(gv+dv)**2 - gv**2 + abs(ga+da)**2 - ga**2)
    v.ensure('square', v.eq(gammaz.GammaZ(wc, par, f, f), ref))


@harness('C16', targets=[Z+'gammaz.GammaZ', Z+'smeftew.d_gV', Z+'smeftew.d_gA'], max_paths=100)
def z_offdiagonal(v):
    """flavour-changing widths: nonnegative, symmetric in the two flavours, zero without flavour-changing couplings"""
    par = ewpar(v)
    s = v.choice('sector', [LEP, NU, U, D])
    a, b = v.choice('pair', [(0, 1), (0, 2), (1, 2)] if len(s) == 3 else [(0, 1)])
    wc = wcs(v, scale=SC)
    g12, g21 = gammaz.GammaZ(wc, par, s[a], s[b]), gammaz.GammaZ(wc, par, s[b], s[a])
    v.ensure('>=0', v.ge(g12, 0))
    v.ensure('symmetric', v.eq(g12, g21))
    # only flavour-diagonal coefficients
    wd = wcs(v, pre='wd', scale=SC, keep=lambda n: '_' not in n or len(set(n.rsplit('_', 1)[1])) == 1)
    v.ensure('LFV=0', v.eq(gammaz.GammaZ(wd, par, s[a], s[b]), 0, scale=1e-12))


@harness('C16', targets=[Z+'gammaz.GammaZ', Z+'gammazsm.GammaZ_SM', Z+'afbz.AFBf', Z+'afbz.Af'])
def z_sm_limit(v):
    """without new physics: widths equal the SM expansion; flavour-changing modes vanish"""
    par, wc = ewpar(v), smwc(v)
    for f in ALL + NU:
        v.ensure('SM '+f, v.eq(gammaz.GammaZ(wc, par, f, f), gammazsm.GammaZ_SM(par, f)))
    for p in ('emu', 'etau', 'mutau'):
        v.ensure('LFV '+p, v.eq(obs('BR(Z->%s)' % p, wc, par), 0, scale=1e-12))
    v.ensure('e-mu universality', v.eq(obs('Gamma(Z->ee)', wc, par), obs('Gamma(Z->mumu)', wc, par)))
    v.ensure('d-s universality', v.eq(obs('Gamma(Z->dd)', wc, par), obs('Gamma(Z->ss)', wc, par)))


@harness('C16', targets=[Z+'gammazsm.Zobs', Z+'gammazsm.GammaZ_SM'])
def z_sm_reference(v):
    """the SM expansion equals its table entry plus the quoted shift at the reference point, for every nuisance value"""
    par = v.par(m_h=125.7, m_t=173.2, alpha_s=0.1184, m_Z=91.1876)
    tab = {'e': ('Gammae,mu', 83.966), 'mu': ('Gammae,mu', 83.966), 'tau': ('Gammatau', 83.776), 'nue': ('Gammanu', 167.157),
           'numu': ('Gammanu', 167.157), 'nutau': ('Gammanu', 167.157), 'u': ('Gammau', 299.936), 'c': ('Gammac', 299.860),
           'd': ('Gammad,s', 382.770), 's': ('Gammad,s', 382.770), 'b': ('Gammab', 375.724)}
    for f, (n, x) in tab.items():
        v.ensure(f, v.eq(gammazsm.GammaZ_SM(par, f), v.num(repr(x))/1000 + par['delta_'+n]))


# ------------------------------------------------------------------ gauge relations of the effective couplings
PAIRS = [(0, 0), (0, 1), (0, 2), (1, 0), (1, 1), (1, 2), (2, 0), (2, 1), (2, 2)]


@harness('C16', targets=[Z+'smeftew.d_gVl', Z+'smeftew.d_gAl', Z+'smeftew.d_gVnu', Z+'smeftew.d_gAnu', Z+'smeftew.d_gVu', Z+'smeftew.d_gAu',
                         Z+'smeftew.d_gVd', Z+'smeftew.d_gAd', Z+'smeftew.d_gV', Z+'smeftew.d_gA', Z+'smeftew.d_gZb', Z+'smeftew.d_sh2'],
         max_paths=100)
def z_chirality(v):
    """the flavour-dependent part of a left-handed (right-handed) Z coupling shift is fixed by the operators with left-handed
    (right-handed) currents of that flavour: universal oblique part is the same for all generations of a fermion type"""
    par = ewpar(v)
    wc = wcs(v, scale=SC)
    C = lin(par, wc)
    s = v.choice('sector', [LEP, NU, U, D])
    n = len(s)
    k = 4*v.fsqrt(2)*par['GF']
    r, l1, l3, t3 = {'e': ('phie', 'phil1', 'phil3', -1), 'nue': (None, 'phil1', 'phil3', 1),
                     'u': ('phiu', 'phiq1', 'phiq3', 1), 'd': ('phid', 'phiq1', 'phiq3', -1)}[s[0]]
    L, R = {}, {}
    for i in range(n):
        for j in range(n):
            V, A = smeftew.d_gV(s[i], s[j], par, C), smeftew.d_gA(s[i], s[j], par, C)
            ij = '_%d%d' % (min(i, j)+1, max(i, j)+1)
            L[i, j] = V + A + 2*(C[l1+ij] - t3*C[l3+ij])/k
            R[i, j] = V - A + (2*C[r+ij]/k if r else 0)
            if i != j:
                v.ensure('gL[%d%d]' % (i, j), v.eq(abs(V + A)**2, abs(2*(C[l1+ij] - t3*C[l3+ij])/k)**2, scale=(SC/1e-5)**2))
                v.ensure('gR[%d%d]' % (i, j), v.eq(abs(V - A)**2, abs(2*C[r+ij]/k)**2 if r else 0, scale=(SC/1e-5)**2))
    for i in range(1, n):
        if s is D and i == 2:
            continue            # the b quark uses its own effective mixing angle
        v.ensure('oblique L', v.eq(L[0, 0], L[i, i], scale=SC/1e-5))
        v.ensure('oblique R', v.eq(R[0, 0], R[i, i], scale=SC/1e-5))


@harness('C16', targets=[Z+'smeftew.d_gW', Z+'smeftew.d_gWl', Z+'smeftew.d_gWq', Z+'smeftew.d_gV', Z+'smeftew.d_gA'])
def zw_gauge_relation(v):
    """SU(2) invariance: the flavour-dependent shift of the W coupling is half the difference of the left-handed Z coupling
    shifts of the two doublet members"""
    par = ewpar(v)
    wc = wcs(v, scale=SC)
    C = lin(par, wc)

    def gl(f1, f2):
        return smeftew.d_gV(f1, f2, par, C) + smeftew.d_gA(f1, f2, par, C)
    # lepton flavour violating
    for i, j in ((0, 1), (0, 2), (1, 2)):
        ob = smeftew.d_gW(LEP[0], NU[0][2:], par, C) - C['phil3_11']/(2*v.fsqrt(2)*par['GF'])
        fl = smeftew.d_gW(LEP[i], LEP[j], par, C) - ob
        v.ensure('W lnu %d%d' % (i, j), v.eq(2*fl, gl(NU[i], NU[j]) - gl(LEP[i], LEP[j]), scale=SC/1e-5))
    # lepton non-universality
    w = [smeftew.d_gW(x, x, par, C) for x in LEP]
    z = [gl(NU[i], NU[i]) - gl(LEP[i], LEP[i]) for i in range(3)]
    for i in (1, 2):
        v.ensure('W universality %d' % i, v.eq(2*(w[i] - w[0]), z[i] - z[0], scale=SC/1e-5))
    wq = [smeftew.d_gW('u', 'd', par, C), smeftew.d_gW('c', 's', par, C)]
    zq = [gl('u', 'u') - gl('d', 'd'), gl('c', 'c') - gl('s', 's')]
    v.ensure('quark W universality', v.eq(2*(wq[1] - wq[0]), zq[1] - zq[0], scale=SC/1e-5))
    v.ensure('lepton-quark W universality', v.eq(wq[0] - C['phiq3_11']/(2*v.fsqrt(2)*par['GF']), w[0] - C['phil3_11']/(2*v.fsqrt(2)*par['GF']),
                                                 scale=SC/1e-5))


@harness('C16', targets=[Z+'smeftew.gV_SM', Z+'smeftew.gA_SM'])
def z_sm_couplings(v):
    """gA = T3/2 and gV = T3/2 - Q s^2_eff with one s^2_eff for all fermions except b"""
    par = v.par()
    g = {f: (smeftew.gV_SM(f, par), smeftew.gA_SM(f, par)) for f in ALL + NU}
    q = dict.fromkeys(LEP, -1)
    q.update(dict.fromkeys(NU, 0))
    q.update(dict.fromkeys(U, v.num('2/3')))
    q.update(dict.fromkeys(D, -v.num('1/3')))
    s2 = g['e'][0] - g['e'][1]
    v.ensure('s2w_eff', v.eq(s2, v.num('1.001')*par['s2w']))
    for f in g:
        v.ensure('gA '+f, v.eq(g[f][1], v.num('1/4') if f in U + NU else -v.num('1/4')))
        if f != 'b':
            v.ensure('gV '+f, v.eq(g[f][0] - g[f][1], -q[f]*s2, scale=1))
    v.ensure('gV b', v.eq(g['b'][0] - g['b'][1], v.num('1.0065')*par['s2w']/3))


# ------------------------------------------------------------------ asymmetries
@harness('C16', targets=[Z+'afbz.Af', Z+'afbz.AFBf'])
def asymmetry_range(v):
    gv, ga, ev, ea = v.real('gV'), v.real('gA'), v.real('eV'), v.real('eA')
    v.assume_(ga != 0)
    v.assume_(ea != 0)
    a = afbz.Af(gv, ga) if not v.sym else afbz.Af(gv + 0*v.i(), ga + 0*v.i())
    v.ensure('A<=1', v.le(a, 1))
    v.ensure('A>=-1', v.ge(a, -1))
    v.ensure('A=2gVgA/(gV2+gA2)', v.eq(a*(gv**2 + ga**2), 2*gv*ga))
    b = afbz.AFBf(ev, ea, gv, ga) if not v.sym else afbz.AFBf(ev + 0*v.i(), ea + 0*v.i(), gv + 0*v.i(), ga + 0*v.i())
    v.ensure('AFB<=3/4', v.le(b, v.num('3/4')))
    v.ensure('AFB>=-3/4', v.ge(b, -v.num('3/4')))


@harness('C16', targets=[Z+'afbz.Af_fct', Z+'afbz.AFBf_fct', Z+'afbz.get_gV_gA'], uses=[Z+'smeftew.d_gV', Z+'smeftew.d_gA'], max_paths=60)
def asymmetry_observables(v):
    """A_f and A_FB use the couplings of the fermion in their name: A_FB = 3/4 A_e A_f"""
    par, wc = ewpar(v), wcs(v, scale=SC)
    f = v.choice('f', ALL)
    # flavour-diagonal couplings are real by hermiticity
    if v.sym:
        v.contract(smeftew.d_gV, lambda f1, f2, par, C: v.uf('dgV', f1, f2) + 0*v.i())
        v.contract(smeftew.d_gA, lambda f1, f2, par, C: v.uf('dgA', f1, f2) + 0*v.i())
        C = lin(par, wc)
    else:
        from vf.phys import WCStub
        wc = wcs(v, scale=SC, keep=lambda n: False)
        C = lin(par, wc)

    def g(f):
        return smeftew.gV_SM(f, par) + smeftew.d_gV(f, f, par, C), smeftew.gA_SM(f, par) + smeftew.d_gA(f, f, par, C)
    gv, ga = g(f)
    ev, ea = g('e')
    v.assume_(ga != 0)
    v.assume_(ea != 0)
    a, b = obs('A(Z->%s)' % (2*f), wc, par), obs('AFB(Z->%s)' % (2*f), wc, par)
    ae = obs('A(Z->ee)', wc, par)
    v.ensure('A_f', v.eq(a*(gv**2 + ga**2), 2*(gv*ga)))
    v.ensure('AFB=3/4 Ae Af', v.eq(b, v.num('3/4')*ae*a))


# ------------------------------------------------------------------ W
def wwidths(v):
    wc = wcs(v, scale=SC)
    if v.sym:
        v.contract('flavio.physics.wdecays.gammaw:GammaW', lambda wc_obj, par, f1, f2: v.uf('GamW', f1, f2, pos=True))
    return wc


@harness('C16', targets=[W+'gammaw.Gammatot', W+'gammaw.Gammalep', W+'gammaw.Gammahad', W+'gammaw.BRWlnu_fct', W+'gammaw.RWlnu_fct', W+'gammaw.RWcX'],
         uses=[W+'gammaw.GammaW'])
def w_composition(v):
    par, wc = ewpar(v), wwidths(v)
    g = {(a, b): gammaw.GammaW(wc, par, a, b) for x, y in ((LEP, LEP), (U, D)) for a in x for b in y}
    lep = {l: sum(g[l, n] for n in LEP) for l in LEP}
    had = {q: sum(g[q, d] for d in D) for q in U}
    tot = sum(lep.values()) + sum(had.values())
    v.ensure('GammaW', v.eq(obs('GammaW', wc, par), tot))
    br = {l: obs('BR(W->%snu)' % l, wc, par) for l in LEP}
    for l in LEP:
        v.ensure('BR '+l, v.eq(br[l]*tot, lep[l]))
    for a, b in (('tau', 'e'), ('mu', 'e'), ('tau', 'mu')):
        v.ensure('R%s%s' % (a, b), v.eq(obs('R%s%s(W->lnu)' % (a, b), wc, par)*br[b], br[a]))
    v.ensure('R(cX)', v.eq(obs('R(W->cX)', wc, par)*sum(had.values()), had['c']))
    v.ensure('unitarity', v.eq(sum(br.values()) + sum(had.values())/tot, 1))


@harness('C16', targets=[W+'gammaw.GammaW', W+'gammaw.GammaW_NP', W+'gammaw.GammaW_SM', W+'gammaw.gWf_SM'], uses=['flavio.physics.ckm.get_ckm'],
         max_paths=60)
def w_width_square(v):
    """Gamma(W->ff') - SM = N (|g+dg|^2 - |g|^2) with g the SM coupling (CKM element for quarks)"""
    par, wc = ewpar(v), wcs(v, scale=SC)
    from flavio.physics import ckm
    if v.sym:
        from vf.phys import ckm_contract
        ckm_contract(v)
        v.contract(smeftew.d_gW, lambda f1, f2, par, C: v.ufc('dgW', f1, f2))
    f1, f2 = v.choice('f', [(a, b) for a in LEP for b in LEP] + [(a, b) for a in U for b in D])
    q = f1 in U
    Vm = ckm.get_ckm(par)
    g = Vm[U.index(f1), D.index(f2)]/2 if q else v.num('1/2') if f1 == f2 else 0
    dg = smeftew.d_gW(f1, f2, par, lin(par, wc))
    n = v.fsqrt(2)*par['GF']*par['m_W']**3/(3*v.pi)*(3 if q else 1)
    sm = 4*abs(g)**2*(par['GammaW_had']/2 if q else par['GammaW_lep']/3)
    v.ensure('square', v.eq(gammaw.GammaW(wc, par, f1, f2), sm + n*(abs(g+dg)**2 - abs(g)**2)))


@harness('C16', targets=[W+'gammaw.GammaW', W+'gammaw.BRWlnu_fct', W+'gammaw.RWlnu_fct'])
def w_sm_limit(v):
    """SM: leptonic widths universal, no lepton flavour violation, total leptonic width is the input"""
    par, wc = ewpar(v), smwc(v)
    for r in ('Rtaue', 'Rmue', 'Rtaumu'):
        v.ensure(r, v.eq(obs(r+'(W->lnu)', wc, par), 1))
    for a in LEP:
        for b in LEP:
            if a != b:
                v.ensure('LFV', v.eq(gammaw.GammaW(wc, par, a, b), 0, scale=1e-12))
    v.ensure('lep', v.eq(sum(gammaw.GammaW(wc, par, a, a) for a in LEP), par['GammaW_lep']))
    v.ensure('m_W', v.eq(obs('m_W', wc, par), mw.mW_SM(par)))


# ------------------------------------------------------------------ Higgs
PROD = {'gg': 'ggF', 'Wh': 'hw', 'Zh': 'hz', 'Vh': 'hv', 'tth': 'tth', 'VBF': 'vv_h'}
DEC = {'bb': 'h_bb', 'cc': 'h_cc', 'tautau': 'h_tautau', 'mumu': 'h_mumu', 'WW': 'h_ww', 'ZZ': 'h_zz', 'VV': 'h_vv', 'Zgamma': 'h_zga',
       'gammagamma': 'h_gaga'}


@harness('C16', targets=[H+'signalstrength.higgs_signalstrength', H+'signalstrength.make_obs_higgs'],
         uses=[H+'production', H+'decay', H+'width.Gamma_h'], max_paths=400)
def higgs_factorisation(v):
    """each signal strength is production times decay over width, for the modes in its name"""
    par, wc = ewpar(v), wcs(v, scale=1e-9)
    C = lin(par, wc, 'hdecays')
    if v.sym:
        for n in PROD.values():
            v.contract('flavio.physics.higgs.production:'+n, lambda C, n=n: v.uf('P'+n))
        for n in DEC.values():
            v.contract('flavio.physics.higgs.decay:'+n, lambda C, n=n: v.uf('D'+n))
        v.contract('flavio.physics.higgs.width:Gamma_h', lambda par, C: v.uf('Gh', pos=True))
    p = {k: getattr(production, n)(C) for k, n in PROD.items()}
    d = {k: getattr(decay, n)(C) for k, n in DEC.items()}
    w = width.Gamma_h(par, C)
    for a in PROD:
        for b in DEC:
            v.ensure('mu_%s(%s)' % (a, b), v.eq(obs('mu_%s(h->%s)' % (a, b), wc, par)*w, p[a]*d[b]))


@harness('C16', targets=[H+'production', H+'decay', H+'width.Gamma_h', H+'signalstrength'])
def higgs_sm_limit(v):
    par, wc = ewpar(v), smwc(v)
    for a in PROD:
        for b in DEC:
            v.ensure('mu_%s(%s)' % (a, b), v.eq(obs('mu_%s(h->%s)' % (a, b), wc, par), 1))


@harness('C16', targets=[H+'production.hv', H+'decay.h_vv'])
def higgs_vv_average(v):
    """the combined V modes are averages of the W and Z modes with fixed positive weights summing to one"""
    par, wc = ewpar(v), wcs(v, scale=1e-9)
    C = lin(par, wc, 'hdecays')
    w1 = v.num('1.380')/(v.num('1.380') + v.num('0.8696'))
    v.ensure('hv', v.eq(production.hv(C), w1*production.hw(C) + (1-w1)*production.hz(C), scale=1))
    w2 = v.num('0.2154')/(v.num('0.2154') + v.num('0.02643'))
    v.ensure('h_vv', v.eq(decay.h_vv(C), w2*decay.h_ww(C) + (1-w2)*decay.h_zz(C), scale=1))


@harness('C16', targets=[H+'width.Gamma_h', H+'width.Gamma_rel_ff'])
def higgs_width(v):
    """total width = 1 + sum BR_SM (R_i - 1) + quadratic light-quark terms, the latter nonnegative and each a sum of |.|^2"""
    par, wc = ewpar(v), wcs(v, scale=1e-9)
    C = lin(par, wc, 'hdecays')
    br = {'bb': '0.5807', 'ww': '0.2154', 'zz': '0.02643', 'gg': '0.08179', 'tautau': '0.06256'}
    l = 1 + sum(v.num(x)*(getattr(decay, 'h_'+k)(C) - 1) for k, x in br.items())
    q = width.Gamma_h(par, C) - l
    v.ensure('>=0', v.ge(q, 0))
    k = 3/(8*v.pi)/(2*par['GF'])**2/(v.num('4.101e-3')/v.num('125.10'))
    ref = k*sum(abs(C[n])**2 for n in ('uphi_11', 'uphi_22', 'dphi_11', 'dphi_22'))
    v.ensure('quadratic', v.eq(width.Gamma_h(par, C), l + ref))


@harness('C16', targets=[H+'decay', H+'production'])
def higgs_linearity(v):
    """each normalised rate is 1 + a real linear function of the coefficients: superposition of two new-physics points"""
    par = ewpar(v)
    w1, w2 = wcs(v, pre='a', scale=1e-9), wcs(v, pre='b', scale=1e-9)
    C1, C2 = lin(par, w1), lin(par, w2)

    class Sum(dict):
        def __missing__(self, k):
            return C1[k] + C2[k]
    for m, names in ((production, PROD.values()), (decay, list(DEC.values()) + ['h_gg'])):
        for n in names:
            f = getattr(m, n)
            v.ensure(n, v.eq(f(Sum()) - 1, (f(C1) - 1) + (f(C2) - 1), scale=1, tol=1e-9))


@harness('C16', targets=[Z+'smeftew._sinthetahat2'])
def mixing_angle(v):
    """sin^2 theta is the smaller root of s2 (1-s2) = pi alpha/(sqrt2 GF mZ^2)"""
    par = ewpar(v)
    s2 = smeftew._sinthetahat2(par)
    v.ensure('s2 c2', v.eq(s2*(1-s2), v.pi*par['alpha_e']/(v.fsqrt(2)*par['GF']*par['m_Z']**2)))
    v.ensure('0<s2<1/2', v.and_(v.gt(s2, 0), v.gt(0.5, s2)))


@harness('C16', targets=[Z+'smeftew.d_sh2', Z+'smeftew.d_mZ2', Z+'smeftew.d_gZb', Z+'smeftew.d_GF', Z+'smeftew.d_gW', Z+'smeftew.d_gWl',
                         Z+'smeftew.d_gWq', W+'mw.dmW_SMEFT', W+'mw.mW'], uses=[W+'mw.mW_SM'])
def input_scheme(v):
    """the universal shifts follow from holding alpha, GF and mZ fixed: with a, b, F the relative shifts of g^2, g'^2, v^2 that the
    operators phiWB, phiD, phil3, ll force, they are the resulting shifts of the Z coupling, sin^2 theta, the W coupling and the W mass"""
    par, wc = ewpar(v), wcs(v, scale=SC)
    if v.sym:       # every GF, alpha > 0 below the bound is of this form
        s, g = v.real('s', pos=True), v.real('g', pos=True)
        v.assume_(2*s*s < 1)
        par['GF'] = g*g
        par['alpha_e'] = v.fsqrt(2)*(par['m_Z']*g*s)**2*(1-s*s)/v.pi
    C = lin(par, wc)
    v2 = 1/(v.fsqrt(2)*par['GF'])
    s2 = smeftew._sinthetahat2(par)
    c2 = 1 - s2
    s, c = v.fsqrt(s2), v.fsqrt(c2)
    eps, D = v2*C['phiWB'], v2*C['phiD']
    F = v2*(C['phil3_11'] + C['phil3_22'] - C['ll_1221']/2)
    w = 10*SC/1e-5/(1-2*s2)
    v.ensure('GF', v.eq(v.fsqrt(2)*smeftew.d_GF(par, C), F, scale=w))
    v.ensure('mZ', v.eq(smeftew.d_mZ2(par, C), par['m_Z']**2*(D/2 + 2*s*c*eps), scale=w))
    # alpha fixed: s2 a + c2 b = p;   mZ fixed: c2 a + s2 b + F + D/2 + 2 s c eps = 0
    p, q = 2*s*c*eps, -(F + D/2 + 2*s*c*eps)
    a, b = (c2*q - s2*p)/(c2 - s2), (c2*p - s2*q)/(c2 - s2)
    v.ensure('alpha fixed', v.eq(s2*a + c2*b, p, scale=w))
    v.ensure('mZ fixed', v.eq(c2*a + s2*b, q, scale=w))
    v.ensure('Z coupling', v.eq(smeftew.d_gZb(par, C), (c2*a + s2*b)/2 + s*c*eps, scale=w))
    v.ensure('sin2 theta', v.eq(smeftew.d_sh2(par, C), s2*c2*(b-a) + s*c*(c2-s2)*eps, scale=w))
    for f1, f2, k in (('e', 'e', 'phil3_11'), ('mu', 'mu', 'phil3_22'), ('tau', 'tau', 'phil3_33'), ('u', 'd', 'phiq3_11'), ('c', 's', 'phiq3_22')):
        v.ensure('W coupling %s%s' % (f1, f2), v.eq(smeftew.d_gW(f1, f2, par, C), v2*C[k]/2 + a/4, scale=w))
    if v.sym:
        v.contract(W+'mw:mW_SM', lambda par: v.uf('mWSM', pos=True))
    Cw = lin(par, wc, 'wdecays')
    v.ensure('m_W', v.eq(obs('m_W', wc, par), mw.mW_SM(par)*(1 - mw.dmW_SMEFT(par, Cw))))
    v.ensure('dm_W', v.eq(-2*mw.dmW_SMEFT(par, C), (a + F).real, scale=w))


@harness('C16', targets=[W+'mw.mW_SM'])
def w_mass_sm(v):
    """the SM W mass is the published parametrisation around its reference point"""
    par = v.par()
    n = v.num
    L = v.flog(par['m_h']/100)
    h = (par['m_h']/100)**2
    t = (par['m_t']/n('174.3'))**2 - 1
    z = par['m_Z']/n('91.1875') - 1
    da = (par['Delta_alpha_e_had'] + par['Delta_alpha_e_lep'])/n('0.05907') - 1
    das = par['alpha_s']/n('0.119') - 1
    m = (n('80.3779') - n('0.05427')*L - n('0.008931')*L**2 + n('0.0000882')*L**4 + n('0.000161')*(h-1) - n('1.070')*da + n('0.5237')*t
         - n('0.0679')*t**2 - n('0.00179')*L*t + n('0.0000664')*h*t - n('0.0795')*das + n('114.9')*z)
    v.ensure('Awramik et al. eq. (6)', v.eq(mw.mW_SM(par), m))


@harness('C16', targets=[H+'decay', H+'production'])
def higgs_universal(v):
    """what every process shares, to the 5 % of the published numerical coefficients: the Higgs field normalisation 2 v^2 phiBox,
    the shift of v by phil3 and ll, the Yukawa modifications sqrt2 v^3/m_f of the fermion modes, the loop structure of the gluon
    modes, and the gauge structure of the photon modes"""
    class One(dict):
        def __missing__(self, k):
            return v.num(0)*v.i()

    def coef(f, n):
        return (f(One({n: 1 + 0*v.i()})) - 1)/1000000
    v2 = v.num('0.0606')      # v^2/TeV^2
    fs = {n: getattr(m, n) for m, names in ((production, PROD.values()), (decay, list(DEC.values()) + ['h_gg'])) for n in names}

    def near(name, a, b, rel='0.05'):
        r = v.num(rel)
        v.ensure(name, v.and_(v.le((a - b)*(a - b), (r*b)**2)))
    for n, f in fs.items():
        if n == 'h_zga':      # no tree-level coupling in the SM: only the direct operators are kept
            continue
        near(n+' phiBox', coef(f, 'phiBox'), 2*v2)
        a, b, c = [coef(f, x) for x in ('phil3_11', 'phil3_22', 'll_1221')]
        v.ensure(n+' mu-e symmetric', v.eq(a, b))
        if n not in ('h_ww', 'h_vv'):       # also the W width
            v.ensure(n+' GF', v.eq(c, -a/2))
    for n, x, m in (('h_bb', 'dphi_33', '4.18'), ('h_cc', 'uphi_22', '1.28'), ('h_tautau', 'ephi_33', '1.777'), ('h_mumu', 'ephi_22', '0.10566'),
                    ('tth', 'uphi_33', '173')):
        near(n+' Yukawa', coef(fs[n], x), -v.num('21.11')/v.num(m))
        near(n+' phiD', coef(fs[n], 'phiD'), -v2/2)
        near(n+' phil3', coef(fs[n], 'phil3_11'), -v2)
    for x in ('phiBox', 'phiD', 'phil3_11', 'phil3_22', 'll_1221', 'uphi_33', 'uphi_22', 'dphi_33', 'dphi_22'):
        v.ensure('gg->h and h->gg '+x, v.eq(coef(fs['ggF'], x), coef(decay.h_gg, x)))
    near('ggF phiD', coef(fs['ggF'], 'phiD'), -v2/2)
    near('ggF phil3', coef(fs['ggF'], 'phil3_11'), -v2)
    # photon: H^2 F^2 with F^2 from c^2 B^2 + s^2 W^2 - s c WB;   photon-Z: 2 s c (B^2 - W^2) + (c^2-s^2) WB
    b, w, wb = [coef(decay.h_gaga, x) for x in ('phiB', 'phiW', 'phiWB')]
    near('photon', wb*wb, b*w)
    v.ensure('photon sign', v.and_(v.gt(0, b), v.gt(0, w), v.gt(wb, 0)))
    near('mixing angle', w/(b + w), v.num('0.231'))
    zb, zw, zwb = [coef(decay.h_zga, x) for x in ('phiB', 'phiW', 'phiWB')]
    v.ensure('Z photon', v.eq(zb, -zw))
    s2 = w/(b + w)
    near('Z photon WB', zwb*zwb*4*s2*(1-s2), zb*zb*(1-2*s2)**2, '0.07')
