"""C14 charged-lepton flavour violation: explicit amplitudes, no effect without new physics, phase conventions drop out"""
import re as _re
from vf.api import harness
from vf import phys
import flavio
from flavio.classes import Observable
from flavio.config import config
from flavio.physics.running import running
from flavio.physics import ckm
from flavio.physics.common import lambda_K
from flavio.physics.taudecays import common, tau3l
from flavio.physics.bdecays import angular, bpll, bpll_lfv
from flavio.physics.bdecays.bvll import lfv as bvlfv
from flavio.physics.bdecays.bvll import amplitudes as bvamp
from flavio.physics.bdecays.common import meson_quark, meson_ff

T = 'flavio.physics.taudecays.'
M_ = 'flavio.physics.mudecays.'
SEC = {('tau', 'mu'): 'mutau', ('tau', 'e'): 'taue', ('mu', 'e'): 'mue'}


def sq(z):
    return z.real**2 + z.imag**2


def co(z):
    return z.conjugate() if hasattr(z, 'conjugate') else z


def dec(l):
    return config['renormalization scale'][l + 'decays']


# ------------------------------------------------------------------ generic two-body decays
def mat(v, four, bar):
    """sigma.q or sigmabar.q for a four-vector with lower-index contraction q0 -+ q.sigma"""
    t, x, y, z = four
    s = 1 if bar else -1
    i = v.i()
    return [[t + s*z, s*(x - i*y)], [s*(x + i*y), t - s*z]]


def ap(m, u):
    return [m[0][0]*u[0] + m[0][1]*u[1], m[1][0]*u[0] + m[1][1]*u[1]]


def spinors(v):
    """decaying fermion at rest with mass a^2+c^2, daughter of mass a b along z with energies E+-p = a^2, b^2"""
    a, b, c = v.real('a', pos=True, dom=(0.6, 1.2)), v.real('b', pos=True, dom=(0.05, 0.5)), v.real('c', pos=True, dom=(0.5, 1.5))
    v.assume_(v.gt(a, b))
    M, m = a**2 + c**2, a*b
    mv = c*v.fsqrt(c**2 + a**2 - b**2)
    E, p = (a**2 + b**2)/2, (a**2 - b**2)/2
    rM = v.fsqrt(M)
    par = [([rM, 0], [rM, 0]), ([0, rM], [0, rM])]
    dau = [([b, 0], [a, 0]), ([0, a], [0, b])]
    return M, m, mv, E, p, par, dau


def dot(u, w):
    return u[0]*w[0] + u[1]*w[1]


@harness('C14', targets=[T+'common.GammaFvf', T+'common.Gamma'], max_paths=20, time_limit=300)
def fermion_to_vector(v):
    """F -> f V: phase space times the spin-summed square of the amplitude fbar eps*[gL PL + gR PR + qslash (TL PL + TR PR)] F"""
    M, m, mv, E, p, par, dau = spinors(v)
    gL, gR, TL, TR, tL, tR = (v.cplx(n) for n in ('gL', 'gR', 'TL', 'TR', 'tL', 'tR'))
    for x in (gL, TL):
        v.assume_(v.gt(x.real, 0))
    got = common.GammaFvf(M, mv, m, gL, gR, gTL=TL + tL, gtTL=tL, gTR=TR - tR, gtTR=tR)
    Ev = M - E
    s2 = 1/v.fsqrt(2)
    pol = [(p/mv, 0, 0, -Ev/mv), (0, s2, v.i()*s2, 0), (0, s2, -v.i()*s2, 0)]
    q = (Ev, 0, 0, -p)
    tot = 0
    for uL, uR in par:
        for fL, fR in dau:
            for e in pol:
                A = gL*dot(fL, ap(mat(v, e, True), uL)) + gR*dot(fR, ap(mat(v, e, False), uR))
                A = A + TR*dot(fL, ap(mat(v, e, True), ap(mat(v, q, False), uR))) + TL*dot(fR, ap(mat(v, e, False), ap(mat(v, q, True), uL)))
                tot = tot + sq(A)
    ref = v.fsqrt(lambda_K(M**2, m**2, mv**2))/(16*v.pi*M**3)*tot/2
    v.ensure('rate', v.eq(got, ref))
    v.ensure('non-negative', v.ge(ref, 0))


@harness('C14', targets=[T+'common.GammaFvf', T+'common.Gamma'], max_paths=20)
def fermion_to_photon(v):
    """F -> f gamma through dipole operators"""
    M, m = v.real('M', pos=True, dom=(1, 2)), v.real('m', pos=True, dom=(0.1, 0.9))
    v.assume_(v.gt(M, m))
    v.assume_(v.gt(M**2, m**2))
    TL, TR, tL, tR = (v.cplx(n) for n in ('TL', 'TR', 'tL', 'tR'))
    v.assume_(v.gt(TL.real, 0))
    got = common.GammaFvf(M, 0, m, 0, 0, gTL=TL + tL, gtTL=tL, gTR=TR - tR, gtTR=tR)
    ref = (M**2 - m**2)**3*(sq(TL) + sq(TR))/(16*v.pi*M**3)
    v.ensure('rate', v.eq(got, ref))
    v.ensure('nothing without couplings', v.eq(common.GammaFvf(M, 0, m, 0, 0), 0))


@harness('C14', targets=[T+'common.GammaFvf', T+'common.Gamma'], max_paths=20, time_limit=300)
def fermion_to_massless_vector(v):
    """the general rate to a massless vector, summed with minus the metric as for a conserved current"""
    a, b = v.real('a', pos=True, dom=(0.6, 1.2)), v.real('b', pos=True, dom=(0.05, 0.5))
    v.assume_(v.gt(a, b))
    M, m, p = a*a, a*b, (a*a - b*b)/2
    gR, TR, tL, tR = (v.cplx(n) for n in ('gR', 'TR', 'tL', 'tR'))
    gL, TL = (v.real(n, pos=True) + v.i()*v.real(n+'i') for n in ('gL', 'TL'))
    got = common.GammaFvf(M, 0, m, gL, gR, gTL=TL + tL, gtTL=tL, gTR=TR - tR, gtTR=tR)
    rM = v.fsqrt(M)
    par = [([rM, 0], [rM, 0]), ([0, rM], [0, rM])]
    dau = [([b, 0], [a, 0]), ([0, a], [0, b])]
    q = (p, 0, 0, -p)
    tot = 0
    for uL, uR in par:
        for fL, fR in dau:
            for k in range(4):
                e = [1 if k == j else 0 for j in range(4)]
                A = gL*dot(fL, ap(mat(v, e, True), uL)) + gR*dot(fR, ap(mat(v, e, False), uR))
                # sigma^{mu nu} q_nu: the antisymmetric part, without q^mu
                d = lambda u, x, y: [(g - h)/2 for g, h in zip(ap(mat(v, e, x), ap(mat(v, q, y), u)), ap(mat(v, q, x), ap(mat(v, e, y), u)))]
                A = A + TR*dot(fL, d(uR, True, False)) + TL*dot(fR, d(uL, False, True))
                tot = tot + (-sq(A) if k == 0 else sq(A))
    ref = (M**2 - m**2)/(16*v.pi*M**3)*tot/2
    v.ensure('rate', v.eq(got, ref))


@harness('C14', targets=[T+'common.GammaFsf', T+'common.Gamma'], max_paths=20)
def fermion_to_scalar(v):
    """F -> f S with amplitude fbar (gL PL + gR PR) F"""
    M, m, ms, E, p, par, dau = spinors(v)
    gL, gR = v.cplx('gL'), v.cplx('gR')
    got = common.GammaFsf(M, ms, m, gL, gR)
    tot = sum(sq(gL*dot(fR, uL) + gR*dot(fL, uR)) for uL, uR in par for fL, fR in dau)
    ref = v.fsqrt(lambda_K(M**2, m**2, ms**2))/(16*v.pi*M**3)*tot/2
    v.ensure('rate', v.eq(got, ref))
    v.ensure('non-negative', v.ge(ref, 0))


def setup(v, **k):
    phys.masses_contract(v)
    phys.ckm_contract(v)
    return v.par(), phys.wcs(v, **k)


def heavy(v, par, M, *ds):
    v.assume_(v.gt(par['m_' + M], sum(par['m_' + d] for d in ds)))


@harness('C14', targets=[T+'taulgamma.BR_llgamma', T+'taulgamma.BR_taulgamma', M_+'muegamma.BR_muegamma', T+'common.GammaFvf'], max_paths=40)
def radiative(v):
    """l -> l' gamma"""
    l1, l2 = v.choice('decay', list(SEC))
    par, wc = setup(v)
    heavy(v, par, l1, l2)
    M, m = par['m_' + l1], par['m_' + l2]
    v.assume_(v.gt(M**2, m**2))
    C = wc.get_wc(SEC[l1, l2], dec(l1), par, nf_out=4)
    a, b = C['Cgamma_' + l1 + l2], C['Cgamma_' + l2 + l1]
    v.assume_(v.gt(a.real, 0))
    got = Observable['BR(%s->%sgamma)' % (l1, l2)].prediction_par(par, wc)
    v.ensure('rate', v.eq(got, par['tau_' + l1]*(M**2 - m**2)**3*(sq(a) + sq(b))/(4*v.pi*M**3)))


@harness('C14', targets=[T+'tauvl.br_tauvl', T+'tauvl.get_wcs', T+'common.GammaFvf'], uses=['flavio.physics.running.running.get_f_perp'],
         max_paths=40, time_limit=400)
def tau_vector(v):
    """tau -> l V: quark content of the meson, photon exchange, vector and tensor currents"""
    lep, V = v.choice('l', ['e', 'mu']), v.choice('V', ['rho0', 'phi'])
    par, wc = setup(v)
    fT = lambda p_, V_, s_: v.uf('f_perp', V_, s_, pos=True, dom=(0.1, 0.2))
    v.contract(running.get_f_perp, fT)
    scale = dec('tau')
    heavy(v, par, 'tau', lep, V)
    C = wc.get_wc(SEC['tau', lep], scale, par, nf_out=4)
    mV, fV = par['m_' + V], par['f_' + V]
    fp = running.get_f_perp(par, V, scale)
    e = v.fsqrt(4*v.pi*running.get_alpha_e(par, scale, nf_out=3))
    content = {'rho0': {'u': (1/v.fsqrt(2), v.num('2/3')), 'd': (-1/v.fsqrt(2), v.num('-1/3'))}, 'phi': {'s': (1, v.num('-1/3'))}}[V]
    gL = gR = TL = TR = 0
    for q, (c, Q) in content.items():
        qq = 2*q
        # <V|qbar gamma q|0> = mV fV eps*; photon: A = -Q e <J>/mV^2, D = d + i e Q A
        gL = gL + c*mV*fV*(C['CVLL_tau%s%s' % (lep, qq)] + C['CVLR_tau%s%s' % (lep, qq)])/2
        gR = gR + c*mV*fV*(C['CVLR_%stau%s' % (qq, lep)] + C['CVRR_tau%s%s' % (lep, qq)])/2
        TL = TL + c*2*(fp*co(C['CTRR_%stau%s' % (lep, qq)]) - Q*e*fV/mV*co(C['Cgamma_%stau' % lep]))
        TR = TR + c*2*(fp*C['CTRR_tau%s%s' % (lep, qq)] - Q*e*fV/mV*C['Cgamma_tau%s' % lep])
    v.assume_(v.gt(gL.real, 0))
    v.assume_(v.gt(TL.real, 0))
    ref = par['tau_tau']*common.GammaFvf(par['m_tau'], mV, par['m_' + lep], gL, gR, TL, 0, TR, 0)
    got = Observable['BR(tau->%s%s)' % (V.replace('0', ''), lep)].prediction_par(par, wc)
    v.ensure('rate', v.eq(got, ref))


@harness('C14', targets=[T+'taupl.br_taupl', T+'common.GammaFsf'], max_paths=40, time_limit=400)
def tau_pseudoscalar(v):
    """tau -> l pi0, l K0 from the axial and pseudoscalar quark currents and the equations of motion"""
    lep, P = v.choice('l', ['e', 'mu']), v.choice('P', ['pi0', 'K0'])
    par, wc = setup(v)
    scale = dec('tau')
    heavy(v, par, 'tau', lep, P)
    M, m, mP, fP = par['m_tau'], par['m_' + lep], par['m_' + P], par['f_' + P]
    if P == 'pi0':
        C = wc.get_wc(SEC['tau', lep], scale, par, nf_out=4)
        gL = gR = 0
        mq = par['m_u'] + par['m_d']
        for q, c in (('u', 1/v.fsqrt(2)), ('d', -1/v.fsqrt(2))):
            qq = 2*q
            # axial coefficient of the left- and right-handed leptonic current, pseudoscalar one of lbar PR tau and lbar PL tau
            aL = (C['CVLR_tau%s%s' % (lep, qq)] - C['CVLL_tau%s%s' % (lep, qq)])/2
            aR = (C['CVRR_tau%s%s' % (lep, qq)] - C['CVLR_%stau%s' % (qq, lep)])/2
            pR = (C['CSRR_tau%s%s' % (lep, qq)] - C['CSRL_tau%s%s' % (lep, qq)])/2
            pL = (co(C['CSRL_%stau%s' % (lep, qq)]) - co(C['CSRR_%stau%s' % (lep, qq)]))/2
            # outgoing meson: <P|qbar gamma^mu gamma5 q|0> = -i f q^mu, <P|qbar gamma5 q|0> = -i f mP^2/(mu + md);
            # lbar qslash PL tau = M lbar PR tau - m lbar PL tau
            gR = gR + c*fP*(M*aL - m*aR + mP**2/mq*pR)
            gL = gL + c*fP*(M*aR - m*aL + mP**2/mq*pL)
    else:
        n = 'sdtau' + lep
        C = wc.get_wc(n, scale, par, nf_out=4)
        md, ms = running.get_md(par, scale), running.get_ms(par, scale)
        N = fP*ckm.xi('t', 'ds')(par)*4*par['GF']/v.fsqrt(2)*running.get_alpha(par, 4.8)['alpha_e']/(4*v.pi)
        g = lambda x: C['C%s_%s' % (x, n)]
        V9, A10, S, P5 = (g('9') - g('9p'))/2, (g('10') - g('10p'))/2, (g('S') - g('Sp'))/2, (g('P') - g('Pp'))/2
        r = mP**2*ms/(md + ms)
        s, p = N*((M - m)*V9 - r*S), N*(-(M + m)*A10 - r*P5)
        gL, gR = s - p, s + p
    ref = par['tau_tau']*common.GammaFsf(M, mP, m, gL, gR)
    got = Observable['BR(tau->%s%s)' % (P.replace('0', ''), lep)].prediction_par(par, wc)
    v.ensure('rate', v.eq(got, ref))


# ------------------------------------------------------------------ three leptons
TEX = {'e': 'e', r'\mu': 'mu', r'\tau': 'tau'}
BIL = r'\(\\bar (\S+)_([LR]) (\S+ )?(\S+)_([LR])\)'


def bilinears(name):
    """the two bilinears (barred field, chirality, field, chirality) of a four-lepton operator, from the basis definition"""
    from wilson import wcxf
    for s in wcxf.Basis['WET', 'flavio'].sectors.values():
        if name in s:
            t = s[name]['tex'].replace(r'\gamma^\mu', 'G').replace(r'\gamma_\mu', 'G')
            x = _re.findall(r'\(\\bar (\\?\w+)_([LR]) (?:G )?(\\?\w+)_([LR])\)', t)
            assert len(x) == 2, (name, t)
            return [(TEX[a], b, TEX[c], d) for a, b, c, d in x], 'V' if 'G' in t else 'S'


def canonical(wc_, sector, l0, l1, lq, names):
    """coefficients of (l1bar Gamma l0)(lqbar Gamma lq): every operator of the sector is brought to this form by hermitian conjugation and
    Fierz identities (anticommuting fields)"""
    out = {}

    def add(k, x):
        out[k] = out.get(k, 0) + x
    for n in names:
        (b1, b2), typ = bilinears(n)
        c = wc_[n]
        fields = sorted([b1[0], b1[2], b2[0], b2[2]])
        if fields != sorted([l0, l1, lq, lq]):
            continue
        if l0 in (b1[0], b2[0]):          # creates the decaying lepton: use the hermitian conjugate
            c = co(c)
            b1, b2 = [(b[2], b[3], b[0], b[1]) for b in (b1, b2)]
        if b2[2] == l0:
            b1, b2 = b2, b1
        assert b1[2] == l0
        if b1[0] == l1 and b2[0] == lq and b2[2] == lq:
            if typ == 'V':
                add('CV' + b1[3] + b2[3], c)
            else:
                add('CS' + b1[3] + b2[3], c)
        else:                              # (lqbar l0)(l1bar lq)
            assert b1[0] == lq and b2[0] == l1 and b2[2] == lq
            if typ == 'V' and b1[3] == b2[3]:
                add('CV' + b1[3] + b1[3], c)
            elif typ == 'V':
                # (lqbar gamma P_X l0)(l1bar gamma P_Y lq) = -2 (l1bar P_X l0)(lqbar P_Y lq)
                add('CS' + b1[3] + b2[3], -2*c)
            else:
                assert b1[3] == b2[3]
                add('CS' + b1[3] + b1[3], -c/2)
                add('CT' + b1[3] + b1[3], -c/8)
    return out


def dipoles(v, wc_, par, l0, l1, scale):
    e = v.fsqrt(4*v.pi*running.get_alpha_e(par, scale, nf_out=4))
    return (e/par['m_' + l0]*wc_['Cgamma_' + l0 + l1], e/par['m_' + l0]*co(wc_['Cgamma_' + l1 + l0]))


KEYS = ['CVLL', 'CVLR', 'CVRL', 'CVRR', 'CSLL', 'CSLR', 'CSRL', 'CSRR', 'CTLL', 'CTRR']
DIFF = [('tau', 'mu', 'e', 'e'), ('tau', 'e', 'mu', 'mu')]
SAME = [('tau', 'mu', 'mu', 'mu'), ('tau', 'e', 'e', 'e'), ('mu', 'e', 'e', 'e')]
DL2 = [('tau', 'e', 'mu', 'e'), ('tau', 'mu', 'e', 'mu')]
SEC4 = {('tau', 'e', 'mu', 'e'): 'etauemu', ('tau', 'mu', 'e', 'mu'): 'muemutau'}


def pre3(par, l0, pi):
    return par['tau_tau']*par['m_tau']**5/(192*8*pi**3) if l0 == 'tau' else 1/(8*par['GF']**2)


def obs3(l0, l1, l2, l3):
    return 'BR(%s->%s%s%s)' % (l0, l1, l2, l3)


def log_big(v, par, l0, l):
    """mass ratios are large enough for the leading-log formulae to be meaningful: log(M^2/m^2) >= 4.25"""
    L = v.flog(par['m_' + l0]**2/par['m_' + l]**2)
    v.assume_(v.ge(L, v.num('17/4')))
    return L


@harness('C14', targets=[T+'tau3l.wc_eff', T+'tau3l.BR_taul1l2l3', T+'tau3l._BR_taumuee'], max_paths=20, time_limit=400)
def three_leptons_different(v):
    """tau -> l l' l': canonical coefficients from the operator basis; rate hep-ph/0404211 (22); non-negative"""
    d = v.choice('decay', DIFF)
    l0, l1, lq = d[0], d[1], d[2]
    par, wc = setup(v)
    scale = dec(l0)
    C = wc.get_wc(SEC[l0, l1], scale, par, nf_out=4)
    K = dict.fromkeys(KEYS, 0)
    K.update(canonical(C, SEC[l0, l1], l0, l1, lq, [n for n in C if n[:2] in ('CV', 'CS') and not any(x in n for x in ('uu', 'dd', 'ss', 'cc', 'bb'))]))
    D, Dp = dipoles(v, C, par, l0, l1, scale)
    L = log_big(v, par, l0, lq)
    S = lambda pat: sum(sq(K[k]) for k in KEYS if k.startswith(pat))
    # completed squares: |CV|^2 + 8 Re(C7 CV*) + 16 |C7|^2 for the two vector coefficients with the same tau chirality
    ref = (sum(sq(K[k] + 4*D) for k in ('CVLL', 'CVLR')) + sum(sq(K[k] + 4*Dp) for k in ('CVRL', 'CVRR')) + S('CS')/4 + 12*S('CT')
           + 32*(sq(D) + sq(Dp))*(L - 4))
    got = Observable[obs3(*d)].prediction_par(par, wc)
    v.ensure('rate', v.eq(got, pre3(par, l0, v.pi)*ref))
    v.ensure('non-negative', v.ge(ref, 0))


@harness('C14', targets=[T+'tau3l.wc_eff', T+'tau3l.BR_taul1l2l3', T+'tau3l._BR_tau3mu', M_+'mu3e.BR_mu3e'], max_paths=20, time_limit=400)
def three_leptons_same(v):
    """l -> 3 l': hep-ph/9909265 (117) in terms of the operator basis; non-negative"""
    d = v.choice('decay', SAME)
    l0, l1 = d[0], d[1]
    par, wc = setup(v)
    scale = dec(l0)
    C = wc.get_wc(SEC[l0, l1], scale, par, nf_out=4)
    K = dict.fromkeys(KEYS, 0)
    K.update(canonical(C, SEC[l0, l1], l0, l1, l1, [n for n in C if n[:2] in ('CV', 'CS') and not any(x in n for x in ('uu', 'dd', 'ss', 'cc', 'bb'))]))
    D, Dp = dipoles(v, C, par, l0, l1, scale)
    L = log_big(v, par, l0, l1)
    ref = (2*sq(K['CVLL'] + 4*D) + sq(K['CVLR'] + 4*D) + 2*sq(K['CVRR'] + 4*Dp) + sq(K['CVRL'] + 4*Dp) + (sq(K['CSLL']) + sq(K['CSRR']))/8
           + 32*(sq(D) + sq(Dp))*(L - v.num('17/4')))
    got = Observable[obs3(*d)].prediction_par(par, wc)
    v.ensure('rate', v.eq(got, pre3(par, l0, v.pi)*ref))
    v.ensure('non-negative', v.ge(ref, 0))


@harness('C14', targets=[T+'tau3l.wc_eff', T+'tau3l.BR_taul1l2l3', T+'tau3l._BR_taumuemu'], max_paths=20, time_limit=400)
def three_leptons_double(v):
    """tau -> l l with a positron or antimuon of the other flavour: only the doubly flavour-violating operators contribute"""
    d = v.choice('decay', DL2)
    par, wc = setup(v)
    C = wc.get_wc(SEC4[d], dec('tau'), par, nf_out=4)
    tot = 0
    for n in C:
        (b1, b2), typ = bilinears(n)
        w = (2 if b1[3] == b2[3] else 1) if typ == 'V' else v.num('1/8')
        tot = tot + w*sq(C[n])
    got = Observable[obs3(*d)].prediction_par(par, wc)
    v.ensure('rate', v.eq(got, pre3(par, 'tau', v.pi)*tot))


# ------------------------------------------------------------------ mu -> e conversion
@harness('C14', targets=[M_+'mueconversion.CR_mue', 'flavio.physics.edms.common.proton_charges'], max_paths=20, time_limit=400)
def conversion(v):
    """hep-ph/0203110 (14): coherent sum over quarks and nucleons; isospin-related nucleon charges"""
    nucl = v.choice('nucleus', ['Au', 'Al', 'Ti'])
    par, wc = setup(v)
    scale = dec('mu')
    C = wc.get_wc('mue', scale, par, nf_out=3)
    m, GF = par['m_mu'], par['GF']
    hat = (running.get_mu(par, scale, nf_out=3) + running.get_md(par, scale, nf_out=3))/2
    iso, dif, st = par['sigma_piN']/hat, par['gS_u-d'], par['sigma_s']/running.get_ms(par, scale, nf_out=3)
    GS = {'p': {'u': (iso + dif)/2, 'd': (iso - dif)/2, 's': st}, 'n': {'u': (iso - dif)/2, 'd': (iso + dif)/2, 's': st}}
    GV = {'p': {'u': 2, 'd': 1, 's': 0}, 'n': {'u': 1, 'd': 2, 's': 0}}
    tot = 0
    for side in 'LR':
        # lepton bilinear ebar Gamma mu with a left-handed (L) or right-handed muon current, scalar ebar P_R mu for L
        V = lambda q: (C['CVLL_mue' + q] + C['CVLR_mue' + q] if side == 'L' else C['CVLR_%smue' % q] + C['CVRR_mue' + q])/2
        S = lambda q: (C['CSRR_mue' + q] + C['CSRL_mue' + q] if side == 'L' else co(C['CSRR_emu' + q]) + co(C['CSRL_emu' + q]))/2
        D = C['Cgamma_mue'] if side == 'L' else co(C['Cgamma_emu'])
        A = D*par['D ' + nucl]/(4*m)
        for N in 'pn':
            A = A + sum(GV[N][q]*V(2*q) for q in 'uds')*par['V%s %s' % (N, nucl)]
            A = A + sum(GS[N][q]*S(2*q) for q in 'uds')*par['S%s %s' % (N, nucl)]
        tot = tot + sq(A)
    ref = 4*m**5*tot/par['GammaCapture ' + nucl]
    got = Observable['CR(mu->e, %s)' % nucl].prediction_par(par, wc)
    v.ensure('rate', v.eq(got, ref))


# ------------------------------------------------------------------ mesons
@harness('C14', targets=['flavio.physics.bdecays.bll.br_inst', 'flavio.physics.bdecays.bll.amplitudes', 'flavio.physics.bdecays.bll.bqll_obs',
                         'flavio.physics.bdecays.bll.bqll_obs_lsum'], max_paths=40, time_limit=400)
def b_leptonic(v):
    """B -> l1 l2: explicit equations of motion, charge-summed observables"""
    B = v.choice('B', ['B0', 'Bs'])
    l1, l2 = v.choice('ll', [('e', 'mu'), ('mu', 'e'), ('e', 'tau'), ('tau', 'e'), ('mu', 'tau'), ('tau', 'mu')])
    par, wc = setup(v)
    scale = config['renormalization scale']['bll']
    heavy(v, par, B, l1, l2)
    m1, m2, mB = par['m_' + l1], par['m_' + l2], par['m_' + B]
    v.assume_(v.gt(mB**2, (m1 + m2)**2))
    v.assume_(v.gt(mB**2, (m1 - m2)**2))
    qq = meson_quark[B]
    mb, mq = running.get_mb(par, scale, nf_out=5), (running.get_ms if B == 'Bs' else running.get_md)(par, scale, nf_out=5)
    N = ckm.xi('t', qq)(par)*4*par['GF']/v.fsqrt(2)*running.get_alpha(par, 4.8)['alpha_e']/(4*v.pi)

    def ref(l1, l2):
        """operators (qbar Gamma b)(l2bar Gamma' l1)"""
        m1, m2 = par['m_' + l1], par['m_' + l2]
        n = qq + l1 + l2
        C = wc.get_wc(n, scale, par)
        g = lambda x: C['C%s_%s' % (x, n)]
        r = mB**2*mb/(mb + mq)
        S = (m2 - m1)*(g('9') - g('9p')) + r*(g('S') - g('Sp'))
        P = (m2 + m1)*(g('10') - g('10p')) + r*(g('P') - g('Pp'))
        # sum over spins |l2bar l1|^2 = 2(mB^2-(m1+m2)^2), |l2bar gamma5 l1|^2 = 2(mB^2-(m1-m2)^2); <0|qbar gamma gamma5 b|B> = i f p
        A2 = sq(N)*par['f_' + B]**2/4*(2*(mB**2 - (m1 + m2)**2)*sq(S) + 2*(mB**2 - (m1 - m2)**2)*sq(P))
        return par['tau_' + B]*v.fsqrt(lambda_K(mB**2, m1**2, m2**2))/(16*v.pi*mB**3)*A2
    a = ref(l1, l2)
    v.ensure('rate', v.eq(Observable['BR(%s->%s%s)' % (B, l1, l2)].prediction_par(par, wc), a))
    n = 'BR(%s->%s%s,%s%s)' % (B, l1, l2, l2, l1)
    if n in Observable.instances:
        v.ensure('sum over charges', v.eq(Observable[n].prediction_par(par, wc), a + ref(l2, l1)))


@harness('C14', targets=['flavio.physics.kdecays.kll.br_kll', 'flavio.physics.kdecays.kll.amplitudes', 'flavio.physics.kdecays.kll.amplitudes_eff',
                         'flavio.physics.kdecays.kll.get_wc'], max_paths=40, time_limit=400)
def k_leptonic(v):
    """K_L, K_S -> e mu: both flavour assignments, neutral-kaon CP eigenstates"""
    K = v.choice('K', ['KL', 'KS'])
    par, wc = setup(v)
    scale = config['renormalization scale']['kdecays']
    heavy(v, par, 'K0', 'e', 'mu')
    m = {l: par['m_' + l] for l in ('e', 'mu')}
    mK = par['m_K0']
    v.assume_(v.gt(mK**2, (m['e'] + m['mu'])**2))
    v.assume_(v.gt(mK**2, (m['e'] - m['mu'])**2))
    N = ckm.xi('t', 'sd')(par)*4*par['GF']/v.fsqrt(2)*par['alpha_e']/(4*v.pi)

    def amps(l1, l2):
        """K0bar -> l2- l1+ from (dbar Gamma s)(l2bar Gamma' l1), light quark masses neglected"""
        n = 'sd' + l1 + l2
        C = wc.get_wc(n, scale, par)
        g = lambda x: C['C%s_%s' % (x, n)]
        return (N*((m[l2] - m[l1])*(g('9') - g('9p')) + mK**2*(g('S') - g('Sp'))),
                N*((m[l2] + m[l1])*(g('10') - g('10p')) + mK**2*(g('P') - g('Pp'))))
    tot = 0
    for l1, l2 in (('e', 'mu'), ('mu', 'e')):
        S, P = amps(l1, l2)
        # K0 -> l2- l1+ from the hermitian conjugate of the operators with the lepton flavours exchanged
        S0, P0 = amps(l2, l1)
        S0, P0 = -co(S0), co(P0)
        s = 1 if K == 'KL' else -1
        S, P = S0 + s*S, P0 + s*P          # times 1/sqrt(2)
        A2 = par['f_K0']**2/8*(2*(mK**2 - (m['e'] + m['mu'])**2)*sq(S) + 2*(mK**2 - (m['e'] - m['mu'])**2)*sq(P))
        tot = tot + par['tau_' + K]*v.fsqrt(lambda_K(mK**2, m[l1]**2, m[l2]**2))/(16*v.pi*mK**3)*A2
    got = Observable['BR(%s->emu,mue)' % K].prediction_par(par, wc)
    v.ensure('rate', v.eq(got, tot))


PAIRS = [('e', 'mu'), ('mu', 'e'), ('e', 'tau'), ('tau', 'e'), ('mu', 'tau'), ('tau', 'mu')]
PM = {'B0->K': ('B0', 'K0'), 'B+->K': ('B+', 'K+'), 'B0->pi': ('B0', 'pi0'), 'B+->pi': ('B+', 'pi+')}
VM = {'B0->K*': ('B0', 'K*0'), 'B+->K*': ('B+', 'K*+'), 'B+->rho': ('B+', 'rho+'), 'B0->rho': ('B0', 'rho0'), 'Bs->phi': ('Bs', 'phi')}


def tensors(q2, m1, m2):
    """leptonic tensors of the (vector, axial) currents, transverse to and along the lepton momentum"""
    P, Q, k = q2 - (m1 - m2)**2, q2 - (m1 + m2)**2, lambda_K(q2, m1**2, m2**2)/q2
    return P, Q, P - k, Q - k


def cnorm(v, q2, mB, mM, m1, m2):
    return v.fsqrt(lambda_K(mB**2, mM**2, q2))*v.fsqrt(lambda_K(q2, m1**2, m2**2))/(512*v.pi**3*mB**3*q2)


def coeffs_p(v, h, q2, mB, mP, mqh, mql, m1, m2):
    """angular coefficients of B -> P l1 l2 without tensor amplitudes (proved in p_angular)"""
    for k in ('T', 'Tt'):
        v.ensure('no tensor amplitude', v.eq(h[k], 0))
    P, Q, P1, Q1 = tensors(q2, m1, m2)
    n = cnorm(v, q2, mB, mP, m1, m2)
    flat = P*sq(h['V']) + Q*sq(h['A'])
    return {'a': 2*n*(flat + Q*sq(h['S']) + P*sq(h['P'])), 'c': 2*n*(P1*sq(h['V']) + Q1*sq(h['A']) - flat), 'b': v.real('unspecified b')}


def coeffs_v(v, H, q2, mB, mV, mqh, mql, m1, m2):
    """forward-backward symmetric, phi-independent angular coefficients of B -> V l1 l2 without tensor amplitudes (proved in v_angular)"""
    for l in ('pl', '0', 'mi'):
        for k in ('T', 'Tt'):
            v.ensure('no tensor amplitude', v.eq(H[l, k], 0))
    P, Q, P1, Q1 = tensors(q2, m1, m2)
    n = cnorm(v, q2, mB, mV, m1, m2)*4/v.num(3)
    T = lambda *ls: sum(P*sq(H[l, 'V']) + Q*sq(H[l, 'A']) for l in ls)
    L = lambda *ls: sum(P1*sq(H[l, 'V']) + Q1*sq(H[l, 'A']) for l in ls)
    tt, lt = T('pl', 'mi'), L('pl', 'mi')
    J = {k: v.real('unspecified %s' % k) for k in (3, 4, 5, '6s', '6c', 7, 8, 9)}
    J.update({'1s': n*(3*tt + lt)/2, '2s': n*(tt - lt)/2, '2c': 2*n*(L('0') - T('0')),
              '1c': 2*n*(T('0') + L('0') + 2*Q*sq(H['S']) + 2*P*sq(H['P']))})
    return J


def lepton_kinematics(v):
    p, u1, u2 = (v.real(n, dom=d, pos=True) for n, d in (('p', (0.3, 1.0)), ('u1', (1.01, 1.6)), ('u2', (1.01, 1.6))))
    (E1, m1), (E2, m2) = (((u**2 + (p/u)**2)/2, (u**2 - (p/u)**2)/2) for u in (u1, u2))
    v.assume_(v.ge(m1, 0))
    v.assume_(v.ge(m2, 0))
    q2 = (E1 + E2)**2
    mB, mM = v.real('mB', dom=(4.5, 5.5), pos=True), v.real('mM', dom=(0.1, 1.0), pos=True)
    v.assume_(v.gt(lambda_K(mB**2, mM**2, q2), 0))
    return q2, m1, m2, mB, mM


@harness('C14', targets=['flavio.physics.bdecays.angular.angularcoeffs_general_p'], max_paths=20)
def p_angular(v):
    """angular coefficients of B -> P l1 l2 as leptonic tensors times hadronic amplitudes, any lepton masses"""
    q2, m1, m2, mB, mM = lepton_kinematics(v)
    h = {**{k: v.cplx('h' + k) for k in 'VASP'}, 'T': 0, 'Tt': 0}
    J, R = (f(h, q2, mB, mM, 0, 0, m1, m2) for f in (angular.angularcoeffs_general_p, lambda *k: coeffs_p(v, *k)))
    for k in 'ac':
        v.ensure(k, v.eq(J[k], R[k]))


@harness('C14', targets=['flavio.physics.bdecays.angular.angularcoeffs_general_v'], max_paths=20)
def v_angular(v):
    """the same for B -> V l1 l2"""
    q2, m1, m2, mB, mM = lepton_kinematics(v)
    H = {**{(l, k): v.cplx('H%s%s' % (l, k)) for l in ('pl', '0', 'mi') for k in 'VA'}, **{k: v.cplx('H' + k) for k in 'SP'},
         **{(l, k): 0 for l in ('pl', '0', 'mi') for k in ('T', 'Tt')}}
    J, R = (f(H, q2, mB, mM, 0, 0, m1, m2) for f in (angular.angularcoeffs_general_v, lambda *k: coeffs_v(v, *k)))
    for k in ('1s', '1c', '2s', '2c'):
        v.ensure(k, v.eq(J[k], R[k]))


def semi(v, modes, sc):
    mode = v.choice('mode', list(modes))
    l1, l2 = v.choice('ll', PAIRS)
    B, M = modes[mode]
    par, wc = setup(v)
    phys.ff_contract(v)
    scale = config['renormalization scale'][sc]
    m1, m2, s = par['m_' + l1], par['m_' + l2], v.real('s', pos=True, dom=(1.95, 3.5))
    v.assume_(v.gt(s, m1 + m2))
    v.assume_(v.gt(s**2, (m1 + m2)**2))
    v.assume_(v.gt(s**2, (m1 - m2)**2))
    if v.sym:
        v.contract(angular.angularcoeffs_general_p, lambda h, *k: coeffs_p(v, h, *k))
        v.contract(angular.angularcoeffs_general_v, lambda h, *k: coeffs_v(v, h, *k))
    mB, mM = par['m_' + B], par['m_' + M]
    v.assume_(v.gt(mB - mM, s))
    v.assume_(v.gt((mB - mM)**2, s**2))
    qq = meson_quark[B, M]
    n = qq + l1 + l2
    C = wc.get_wc(n, scale, par)
    g = lambda x: C['C%s_%s' % (x, n)]
    mb = running.get_mb(par, scale)
    N = ckm.xi('t', qq)(par)*4*par['GF']/v.fsqrt(2)*running.get_alpha(par, scale)['alpha_e']/(4*v.pi)
    lB, lL = lambda_K(mB**2, mM**2, s**2), lambda_K(s**2, m1**2, m2**2)
    v.assume_(v.gt(lB, 0))
    v.assume_(v.gt(lL, 0))
    ps = v.fsqrt(lB)*v.fsqrt(lL)/(256*v.pi**3*mB**3*s**2)
    return mode, B, M, l1, l2, par, wc, s, m1, m2, mB, mM, mb, C, g, N, lB, ps


def leptons(m1, m2, q2):
    """l2bar Gamma l1: spin-summed, angle-averaged leptonic tensors
    vector: spatial (transverse to q) and timelike parts; scalar |l2bar l1|^2, |l2bar g5 l1|^2"""
    p, m = (m1 + m2)**2, (m1 - m2)**2
    sp = {'V': 2*(q2 - m)*(2*q2 + p)/(3*q2), 'A': 2*(q2 - p)*(2*q2 + m)/(3*q2)}   # per polarisation
    sc = {'S': 2*(q2 - p), 'P': 2*(q2 - m)}
    return sp, sc


@harness('C14', targets=['flavio.physics.bdecays.bpll_lfv.bpll_dbrdq2', 'flavio.physics.bdecays.bpll_lfv.bpll_obs',
                         'flavio.physics.bdecays.bpll_lfv.helicity_amps', 'flavio.physics.bdecays.bpll_lfv.dGdq2',
                         'flavio.physics.bdecays.wilsoncoefficients.get_wceff_lfv'], uses=['flavio.physics.bdecays.angular.angularcoeffs_general_p'],
         max_paths=60, time_limit=600, total=700)
def b_to_p(v):
    """B -> P l1 l2 rate at fixed q2 from hadronic matrix elements and leptonic tensors"""
    mode, B, M, l1, l2, par, wc, s, m1, m2, mB, mM, mb, C, g, N, lB, ps = semi(v, PM, 'bpll')
    q2 = s**2
    ff = {k: x for k, x in bpll.get_ff(q2, par, B, M).items()}
    sp, sc = leptons(m1, m2, q2)
    c9, c10, cs, cp = g('9') + g('9p'), g('10') + g('10p'), g('S') + g('Sp'), g('P') + g('Pp')
    # longitudinal form factor f+ sqrt(lambda/q2), timelike (mB^2-mM^2) f0; half from the chirality projector
    hl = ff['f+']*v.fsqrt(lB)/s
    h0 = (mB**2 - mM**2)*ff['f0']
    S = h0*(cs + (m2 - m1)/q2*c9)
    P = h0*(cp + (m2 + m1)/q2*c10)
    A2 = sq(N)/4*(sp['V']*hl**2*sq(c9) + sp['A']*hl**2*sq(c10) + sc['S']*sq(S) + sc['P']*sq(P))
    iso = v.num('1/2') if M == 'pi0' else 1
    got = bpll_lfv.bpll_dbrdq2(q2, C, par, B, M, l1, l2)
    # dGamma/dq2 = ps * |A|^2 (averaged over lepton angles)
    v.ensure('rate', v.eq(got, iso*par['tau_' + B]*ps*A2))


@harness('C14', targets=['flavio.physics.bdecays.bvll.lfv.bvlilj_obs', 'flavio.physics.bdecays.bvll.lfv.helicity_amps', 'flavio.physics.bdecays.bvll.lfv.prefactor',
                         'flavio.physics.bdecays.wilsoncoefficients.get_wceff_lfv', 'flavio.physics.bdecays.bvll.observables.dGdq2'],
         uses=['flavio.physics.bdecays.angular.angularcoeffs_general_v'], max_paths=60, time_limit=600, total=700)
def b_to_v(v):
    """B -> V l1 l2 rate at fixed q2"""
    from flavio.physics.bdecays.bvll.observables import dGdq2
    mode, B, M, l1, l2, par, wc, s, m1, m2, mB, mM, mb, C, g, N, lB, ps = semi(v, VM, 'bvll')
    q2 = s**2
    ff = bvamp.get_ff(q2, par, B, M)
    sp, sc = leptons(m1, m2, q2)
    rl = v.fsqrt(lB)
    tot = 0
    for t, x in (('V', '9'), ('A', '10')):
        p, m = g(x) + g(x + 'p'), g(x) - g(x + 'p')
        H0 = 8*mB*mM*ff['A12']/s*m
        Hp, Hm = (e*rl*ff['V']/(mB + mM)*p - (mB + mM)*ff['A1']*m for e in (1, -1))
        tot = tot + sp[t]*(sq(H0) + sq(Hp) + sq(Hm))
    S = rl*ff['A0']*((g('S') - g('Sp')) + (m2 - m1)/q2*(g('9') - g('9p')))
    P = rl*ff['A0']*((g('P') - g('Pp')) + (m2 + m1)/q2*(g('10') - g('10p')))
    tot = tot + sc['S']*sq(S) + sc['P']*sq(P)
    got = bvlfv.bvlilj_obs(dGdq2, q2, C, par, B, M, l1, l2)
    v.ensure('rate', v.eq(got, ps/4*sq(N)*tot))


@harness('C14', targets=['flavio.physics.bdecays.bpll_lfv.bpll_dbrdq2_int', 'flavio.physics.bdecays.bpll_lfv.bpll_dbrdq2_tot_func',
                         'flavio.physics.bdecays.bpll_lfv.bpll_dbrdq2_tot_lfv_comb_func', 'flavio.physics.bdecays.bvll.lfv.BR_tot',
                         'flavio.physics.bdecays.bvll.lfv.bvlilj_obs_int'],
         uses=['flavio.physics.bdecays.bpll_lfv.bpll_dbrdq2', 'flavio.physics.bdecays.bvll.lfv.bvlilj_obs'], max_paths=80, time_limit=600, total=700, native_n=1)
def b_integrated(v):
    """total rates are integrals of the differential ones over the whole range; sums over charges; factor 1/2 for rho0"""
    from flavio.physics.bdecays.bvll.observables import dGdq2
    mode = v.choice('mode', list(PM) + list(VM))
    l1, l2 = v.choice('ll', [('e', 'mu'), ('tau', 'e'), ('mu', 'tau')])
    par, wc = setup(v)
    phys.ff_contract(v)
    quad = phys.integral_contract(v)
    B, M = PM.get(mode) or VM[mode]
    heavy(v, par, B, M, l1, l2)
    for x, y in ((l1, l2), (l2, l1)):
        if v.sym:
            d = wc.get_wc(meson_quark[B, M] + x + y, config['renormalization scale']['bpll' if mode in PM else 'bvll'], par)
            v.assume_(v.gt(abs(d['C9_' + meson_quark[B, M] + x + y]), 1))
    if v.sym:
        v.contract(bpll_lfv.bpll_dbrdq2, lambda q2, w, p_, B_, P_, x, y: v.uf('dBR', B_, P_, x, y, q2))
        v.contract(bvlfv.bvlilj_obs, lambda f, q2, w, p_, B_, P_, x, y: v.uf('dG', B_, P_, x, y, q2))
    a, b = (par['m_' + l1] + par['m_' + l2])**2, (par['m_' + B] - par['m_' + M])**2

    def ref(x, y):
        n = meson_quark[B, M] + x + y
        if mode in PM:
            w = wc.get_wc(n, config['renormalization scale']['bpll'], par)
            return quad(lambda q2: bpll_lfv.bpll_dbrdq2(q2, w, par, B, M, x, y), a, b)
        w = wc.get_wc(n, config['renormalization scale']['bvll'], par)
        r = par['tau_' + B]*quad(lambda q2: bvlfv.bvlilj_obs(dGdq2, q2, w, par, B, M, x, y), a, b)
        return r/2 if M == 'rho0' else r
    t = dict(tol=1e-2)
    for x, y in ((l1, l2), (l2, l1)):
        v.ensure('total %s%s' % (x, y), v.eq(Observable['BR(%s%s%s)' % (mode, x, y)].prediction_par(par, wc), ref(x, y), **t))
    hits = [n for n in ('BR(%s%s%s,%s%s)' % (mode, l1, l2, l2, l1), 'BR(%s%s%s,%s%s)' % (mode, l2, l1, l1, l2)) if n in Observable.instances]
    assert len(hits) == (mode in PM)
    if hits:
        v.ensure('sum over charges', v.eq(Observable[hits[0]].prediction_par(par, wc), ref(l1, l2) + ref(l2, l1), **t))


# ------------------------------------------------------------------ quarkonium
Q_ = 'flavio.physics.quarkonium.'
QV = {'J/psi': 'cc', 'psi(2S)': 'cc', 'Upsilon(1S)': 'bb', 'Upsilon(2S)': 'bb', 'Upsilon(3S)': 'bb'}
QP = {'eta_c(1S)': 'cc', 'eta_b(1S)': 'bb'}
QS = {'chi_c0(1P)': 'cc', 'chi_b0(1P)': 'bb', 'chi_b0(2P)': 'bb'}


def vt_sum(V, T, y1, y2):
    """sum over lepton spins, average over polarisations of |l2bar eps*[V + 4 i sigma.p/M T] l1|^2 / M^2; V, T = (left, right) (proved in dilepton_spinors)"""
    (VL, VR), (TL, TR) = V, T
    a, b = y1**2, y2**2
    re = lambda x, y: x.real*y.real + x.imag*y.imag
    r = (sq(VL) + sq(VR))*(2 - a - b - (a - b)**2)/3 + 4*y1*y2*re(VL, VR)
    r = r + 16*((sq(TL) + sq(TR))*(1 + a + b - 2*(a - b)**2)/3 + 4*y1*y2*re(TL, TR))
    return r + 8*y2*(1 + a - b)*(re(VR, TR) + re(VL, TL)) + 8*y1*(1 + b - a)*(re(VL, TR) + re(VR, TL))


def s_sum(SL, SR, y1, y2):
    return (1 - y1**2 - y2**2)*(sq(SL) + sq(SR)) - 4*y1*y2*(SL.real*SR.real + SL.imag*SR.imag)


@harness('C14', targets=[Q_ + 'Vll.Vll_br', Q_ + 'Pll.Pll_br', Q_ + 'Sll.Sll_br'], max_paths=20)
def dilepton_spinors(v):
    """spin sums for a (pseudo)scalar or vector decaying to l2 and the antiparticle of l1, from explicit spinors"""
    p, u1, u2 = (v.real(n, dom=d, pos=True) for n, d in (('p', (0.3, 1.0)), ('u1', (1.01, 1.6)), ('u2', (1.01, 1.6))))
    (E1, m1), (E2, m2) = (((u**2 + (p/u)**2)/2, (u**2 - (p/u)**2)/2) for u in (u1, u2))
    M = E1 + E2
    y1, y2 = m1/M, m2/M
    r2 = v.fsqrt(2)
    (a1, b1), (a2, b2) = (((u + p/u)/r2, (u - p/u)/r2) for u in (u1, u2))
    l2 = [([b2, 0], [a2, 0]), ([0, a2], [0, b2])]
    l1 = [([a1, 0], [-b1, 0]), ([0, b1], [0, -a1])]
    V, T_ = [(v.cplx('%sL' % n), v.cplx('%sR' % n)) for n in 'VT']
    S = v.cplx('SL'), v.cplx('SR')
    A = v.cplx('AL'), v.cplx('AR')
    s2, P = 1/r2, (M, 0, 0, 0)
    pol = [(0, 0, 0, 1), (0, s2, v.i()*s2, 0), (0, s2, -v.i()*s2, 0)]
    vec = sca = 0
    for fL, fR in l2:
        for uL, uR in l1:
            for e in pol:
                X = V[0]*dot(fL, ap(mat(v, e, True), uL)) + V[1]*dot(fR, ap(mat(v, e, False), uR))
                # i sigma.p = -eps p for eps.p = 0
                X = X - 4/M*(T_[1]*dot(fL, ap(mat(v, e, True), ap(mat(v, P, False), uR))) + T_[0]*dot(fR, ap(mat(v, e, False), ap(mat(v, P, True), uL))))
                vec = vec + sq(X)
            sca = sca + sq(S[0]*dot(fR, uL) + S[1]*dot(fL, uR))
            ax = A[0]*dot(fL, ap(mat(v, P, True), uL)) + A[1]*dot(fR, ap(mat(v, P, False), uR))
            v.ensure('equation of motion', v.eq(ax, (m2*A[0] - m1*A[1])*dot(fR, uL) + (m2*A[1] - m1*A[0])*dot(fL, uR)))
    v.ensure('vector', v.eq(vec/3, M**2*vt_sum(V, T_, y1, y2)))
    v.ensure('scalar', v.eq(sca, M**2*s_sum(*S, y1, y2)))


def quarkonium(v, X, l1, l2):
    par, wc = setup(v)
    heavy(v, par, X, *{l1, l2})
    M, m1, m2 = par['m_' + X], par['m_' + l1], par['m_' + l2]
    y1, y2 = m1/M, m2/M
    v.assume_(v.gt(M**2, (m1 + m2)**2))
    v.assume_(v.gt(M**2, (m1 - m2)**2))
    v.assume_(v.gt(lambda_K(1, y1**2, y2**2), 0))
    scale = config['renormalization scale'][X]
    ps = par['tau_' + X]*v.fsqrt(lambda_K(1, y1**2, y2**2))/(16*v.pi)*M     # lifetime times phase space, amplitudes in units of M
    return par, wc, M, y1, y2, scale, ps


def lfv_currents(wc_, l1, l2, qq):
    """coefficients of (l2bar gamma P_X l1)(qbar gamma q), (l2bar gamma P_X l1)(qbar gamma g5 q), (l2bar P_X l1)(qbar q), (l2bar P_X l1)(qbar g5 q),
    (l2bar sigma P_X l1)(qbar sigma q), l2bar sigma P_X l1 F; X = L, R"""
    O = {'muecc': ('mu', 'e'), 'mue': ('mu', 'e'), 'taue': ('tau', 'e'), 'taumu': ('tau', 'mu')}
    a, b = next(k for k in O.values() if set(k) == {l1, l2})      # CVLL_ab: (bbar_L gamma a_L)
    f = (lambda z: z) if (l1, l2) == (a, b) else co
    LL, RR, LR, RL = (f(wc_[n]) for n in ('CVLL_%s%s%s' % (a, b, qq), 'CVRR_%s%s%s' % (a, b, qq), 'CVLR_%s%s%s' % (a, b, qq), 'CVLR_%s%s%s' % (qq, a, b)))
    n = lambda x: wc_['%s_%s%s%s' % (x, l1, l2, qq)]
    m = lambda x: co(wc_['%s_%s%s%s' % (x, l2, l1, qq)])
    V, A = ((LL + LR)/2, (RR + RL)/2), ((LR - LL)/2, (RR - RL)/2)
    S = (m('CSRR') + m('CSRL'))/2, (n('CSRR') + n('CSRL'))/2
    P = (m('CSRL') - m('CSRR'))/2, (n('CSRR') - n('CSRL'))/2
    T = m('CTRR'), n('CTRR')
    return V, A, S, P, T, (co(wc_['Cgamma_%s%s' % (l2, l1)]), wc_['Cgamma_%s%s' % (l1, l2)])


def charge(v, qq):
    return v.num('2/3' if qq == 'cc' else '-1/3')


def v_ref(v, X, l1, l2):
    par, wc, M, y1, y2, scale, ps = quarkonium(v, X, l1, l2)
    qq = QV[X]
    e = v.fsqrt(4*v.pi*running.get_alpha_e(par, scale))
    fV, fT, Q = par['f_' + X], par['fT_' + X], charge(v, qq)
    if l1 != l2:
        V, _, _, _, T, D = lfv_currents(wc.get_wc(SEC.get((l1, l2)) or SEC[l2, l1], scale, par), l1, l2, qq)
    else:
        w, n = wc.get_wc('dF=0', scale, par), 4*par['GF']/v.fsqrt(2)
        g = lambda x, *k: n*w[x + '_' + ''.join(k)]
        ll = l1 + l2
        V = (g('CVLL', ll, qq) + g('CVLR', ll, qq))/2, (g('CVRR', ll, qq) + g('CVLR', qq, ll))/2
        V = tuple(x - Q*e**2/M**2 for x in V)
        t, d = g('CTRR', ll, qq), g('C7', ll)*e/(16*v.pi**2)*par['m_' + l1]
        T, D = (co(t), t), (co(d), d)
    # <0|qbar gamma q|V> = fV M eps; <0|qbar sigma q|V> = i fT (eps p - p eps); photon pole: F -> -e Q fV/M^2
    H = tuple(fV*M*x for x in V)
    K = tuple((fT*t - e*Q*fV/M*d)*M/2 for t, d in zip(T, D))
    return par, wc, ps*vt_sum(H, K, y1, y2)


@harness('C14', targets=[Q_ + 'Vll.Vll_br', Q_ + 'Vll.getVT_lfv', Q_ + 'Vll.getVT_lfc'], uses=['flavio.physics.running.running.get_alpha_e'], max_paths=60, time_limit=400)
def quarkonium_vector(v):
    """V -> l1+ l2-: four-fermion, tensor and photon-dipole operators, V -> l+ l- including the photon pole"""
    X = v.choice('meson', list(QV))
    l1, l2 = v.choice('ll', PAIRS + [(l, l) for l in ('e', 'mu', 'tau')])
    par, wc, ref = v_ref(v, X, l1, l2)
    v.ensure('rate', v.eq(Observable['BR(%s->%s%s)' % (X, l1, l2)].prediction_par(par, wc), ref))


@harness('C14', targets=[Q_ + 'Pll.Pll_br', Q_ + 'Pll.getS_lfv', Q_ + 'Sll.Sll_br', Q_ + 'Sll.getS_lfv'], max_paths=60, time_limit=400)
def quarkonium_scalar(v):
    """S, P -> l1+ l2-: scalar and pseudoscalar densities, axial current with the equations of motion"""
    X = v.choice('meson', list(QP) + list(QS))
    l1, l2 = v.choice('ll', PAIRS)
    par, wc, M, y1, y2, scale, ps = quarkonium(v, X, l1, l2)
    qq = QP.get(X) or QS[X]
    V, A, S, P, T, D = lfv_currents(wc.get_wc(SEC.get((l1, l2)) or SEC[l2, l1], scale, par), l1, l2, qq)
    if X in QS:
        # <0|qbar q|S> = M fS
        L, R = (par['f_' + X]*M*x for x in S)
    else:
        # <0|qbar g_mu g5 q|P> = i f p_mu, <0|qbar g5 q|P> = -i (M^2 f - a)/(2 m_q)
        f, h = par['f_' + X], (M**2*par['f_' + X] - par['a_' + X])/(2*par['m_' + qq[0]])
        y = lambda i, j: f*M*(y2*A[i] - y1*A[j])
        L, R = h*P[0] - y(0, 1), h*P[1] - y(1, 0)
    v.ensure('rate', v.eq(Observable['BR(%s->%s%s)' % (X, l1, l2)].prediction_par(par, wc), ps*s_sum(L, R, y1, y2)))


@harness('C14', targets=[Q_ + 'Vllgamma.F_A', Q_ + 'Vllgamma.F_S', Q_ + 'Vllgamma.F_PA'], max_paths=20)
def quarkonium_phase_space(v):
    """the kinematic functions of V -> l l' gamma are phase-space integrals over the dilepton mass s from m^2 to 1,
    (1-s)(1-m^2/s)^2 times (1+s)(1+m^2/2s)/3 + m^2/2s (axial), s/2 (densities), y (interference)"""
    from flavio.physics.quarkonium import Vllgamma as G
    u = v.real('mu', pos=True, dom=(0.05, 0.9))
    v.assume_(v.gt(1, u))
    g = {'S': lambda x: G.F_S(v.fsqrt(x)), 'PA': lambda x: G.F_PA(v.fsqrt(x))/v.fsqrt(x), 'A': lambda x: G.F_A(v.fsqrt(x))}
    L = v.flog(u)
    # elementary antiderivatives, integrated from u to 1
    mom = lambda n: (1 - u**(n + 1))/(n + 1) if n != -1 else -L

    def integral(num):
        """int_u^1 ds sum c s^n"""
        return sum(c*mom(n) for n, c in num.items())

    def times(*ps):
        r = {0: 1}
        for p in ps:
            q = {}
            for n, c in r.items():
                for k, d in p.items():
                    q[n + k] = q.get(n + k, 0) + c*d
            r = q
        return r
    base = ({0: 1, 1: -1}, {0: 1, -1: -u}, {0: 1, -1: -u})
    third = v.num('1/3')
    axial = times({0: third, 1: third}, {0: 1, -1: u/2})
    axial[-1] = axial.get(-1, 0) + u/2
    for k, w in (('S', {1: v.num('1/2')}), ('PA', {0: 1}), ('A', axial)):
        v.ensure(k, v.eq(g[k](u), integral(times(*base, w))))


@harness('C14', targets=[Q_ + 'Vllgamma.Vllgamma_br', Q_ + 'Vllgamma.getWC_lfv'], max_paths=60, time_limit=400)
def quarkonium_radiative(v):
    """V -> l1+ l2- gamma with one massless lepton: dilepton spin 1 from the axial current, spin 0 from the densities and the
    divergence of the axial current (coefficients of the rarely used two-photon operators zero)"""
    from flavio.physics.quarkonium import Vllgamma as G
    X = v.choice('meson', list(QV))
    l1, l2 = v.choice('ll', PAIRS)
    par, wc, M, y1, y2, scale, ps = quarkonium(v, X, l1, l2)
    qq = QV[X]
    heavier = l1 if {'e': 0, 'mu': 1, 'tau': 2}[l1] > {'e': 0, 'mu': 1, 'tau': 2}[l2] else l2
    light = l2 if heavier == l1 else l1
    v.assume_(v.gt(par['m_' + heavier], par['m_' + light]))
    V, A, S, P, T, D = lfv_currents(wc.get_wc(SEC.get((l1, l2)) or SEC[l2, l1], scale, par), l1, l2, qq)
    y = par['m_' + heavier]/M
    FA, FS, FPA = G.F_A(y), G.F_S(y), G.F_PA(y)
    # dGamma/ds = n (1-s)(1-y^2/s)^2 { ((1+s)(1+y^2/2s)/3) |A_X|^2 + s/2 ( |S_X|^2 + |P_X - c_X/s|^2 ) }, c_X = y2 A_X - y1 A_Xbar
    c = (y*A[0], y*A[1]) if heavier == l2 else (-y*A[1], -y*A[0])
    re = lambda a, b: a.real*b.real + a.imag*b.imag
    axial = FA*(sq(A[0]) + sq(A[1]))          # contains the square of the divergence, y^2/2s |A|^2
    dens = FS*(sq(S[0]) + sq(S[1]) + sq(P[0]) + sq(P[1]))
    inter = -FPA/y*(re(P[0], c[0]) + re(P[1], c[1]))
    n = 16*par['f_' + X]**2*M**2
    ref = running.get_alpha_e(par, scale)*charge(v, qq)**2*par['tau_' + X]*M/(192*v.pi**2)*n*(axial + dens + inter)
    v.ensure('rate', v.eq(Observable['BR(%s->%s%sgamma)' % (X, l1, l2)].prediction_par(par, wc, CeFFij=0, CeFFji=0, CeFFtildeij=0, CeFFtildeji=0), ref))


def combos():
    out = []
    for n in Observable.instances:
        m = _re.match(r'(BR|R)\(((?:J/psi|psi\(2S\)|Upsilon\(.S\)|eta_.\(1S\)|chi_..\(.P\)))->(e|mu|tau)(e|mu|tau)(,(e|mu|tau)(e|mu|tau))?(gamma)?\)$', n)
        if m and (m.group(5) or m.group(1) == 'R'):
            out.append((n, m.group(1), m.group(2), m.group(3), m.group(4), bool(m.group(5)), m.group(8) or ''))
    return sorted(out)


COMBOS = combos()


@harness('C14', targets=[Q_ + 'Vll.Vll_br_comb_func', Q_ + 'Vll.Vll_ratio_func', Q_ + 'Vll.Vll_ratio_comb_func', Q_ + 'Pll.Pll_br_comb_func', Q_ + 'Sll.Sll_br_comb_func',
                         Q_ + 'Vllgamma.Vllgamma_br_comb_func', Q_ + 'Vllgamma.Vllgamma_ratio_func', Q_ + 'Vllgamma.Vllgamma_ratio_comb_func'],
         uses=[Q_ + 'Vll.Vll_br', Q_ + 'Pll.Pll_br', Q_ + 'Sll.Sll_br', Q_ + 'Vllgamma.Vllgamma_br'], max_paths=250, time_limit=400, native_n=12)
def quarkonium_combinations(v):
    """charge-summed rates and ratios to V -> e+ e-; every quarkonium has all three charge-summed modes in both spellings"""
    from flavio.physics.quarkonium import Vll, Pll, Sll, Vllgamma
    n, kind, X, l1, l2, both, gamma = v.choice('observable', COMBOS)
    for M in [*QV, *QP, *QS]:
        for a, b in PAIRS:
            assert 'BR(%s->%s%s,%s%s)' % (M, a, b, b, a) in Observable.instances, (M, a, b)
    par, wc = setup(v)
    kw = {k: 0 for k in (Observable[n].arguments or ())}
    if v.sym:
        for f, tag in ((Vll.Vll_br, 'V'), (Pll.Pll_br, 'P'), (Sll.Sll_br, 'S'), (Vllgamma.Vllgamma_br, 'G')):
            v.contract(f, lambda w, p_, M, *r, tag=tag: v.uf(tag, M, *[x for x in r if isinstance(x, str)], pos=True))
        br = lambda a, b, g=gamma: v.uf('G' if g else 'V' if X in QV else 'P' if X in QP else 'S', X, a, b, pos=True)
    else:
        br = lambda a, b, g=gamma: Observable['BR(%s->%s%s%s)' % (X, a, b, g)].prediction_par(par, wc, **(kw if g or X not in QV else {}))
    got = Observable[n].prediction_par(par, wc, **kw)
    ref = br(l1, l2) + br(l2, l1) if both else br(l1, l2)
    if kind == 'R':
        ref = ref/br('e', 'e', '')
    v.ensure('combination', v.eq(got, ref))


# ------------------------------------------------------------------ standard model, phases
def lfv_observables():
    out = []
    for n in Observable.instances:
        if _re.match(r'BR\((tau|mu)->(e|mu)gamma\)|BR\((tau|mu)->(e|mu)(e|mu)(e|mu)\)|BR\(tau->(rho|phi|pi|K)(e|mu)\)|CR\(mu->e', n):
            out.append(n)
        elif _re.match(r'BR\((B|K).*(emu|mue|etau|taue|mutau|taumu)\)$', n) and 'nu' not in n:
            out.append(n)
        elif _re.match(r'BR\(Z->(emu|mue|etau|taue|mutau|taumu)\)$', n):
            out.append(n)
    return sorted(out)


LIGHT = {'tau': ('mu', 'phi'), 'B0': ('tau', 'tau'), 'Bs': ('tau', 'tau'), 'mu': ('e',), 'K0': ('mu', 'e')}


def check_zero(v, names):
    par = v.par()
    phys.masses_contract(v)
    phys.ckm_contract(v)
    phys.ff_contract(v)
    n = v.choice('observable', names)
    m = _re.match(r'\w+\((.+?)->(.*)\)$', n)
    D = {'KL': 'K0', 'KS': 'K0'}.get(m.group(1), m.group(1))
    if D in ('B0', 'Bs', 'K0'):
        for a, b in (('e', 'mu'), ('e', 'tau'), ('mu', 'tau')) if D != 'K0' else (('e', 'mu'),):
            for s in (1, -1):
                v.assume_(v.gt(par['m_' + D]**2, (par['m_' + a] + s*par['m_' + b])**2))
                v.assume_(v.gt(1, (par['m_' + a] + s*par['m_' + b])**2/par['m_' + D]**2))
    elif D == 'tau':
        heavy(v, par, 'tau', *[{'rho': 'rho0', 'pi': 'pi0', 'K': 'K0'}.get(x, x) for x in _re.findall('rho|phi|pi|K|mu|e', m.group(2))])
    elif D == 'mu':
        heavy(v, par, 'mu', 'e')
    if n.startswith('CR'):
        v.assume_(v.gt(par['GammaCapture ' + m.group(2).split(',')[1].strip()], 0))
    v.ensure('vanishes', v.eq(Observable[n].prediction_par(par, phys.smwc(v)), 0))


LFVOBS = [n for n in lfv_observables() if not n.startswith('BR(Z')]


@harness('C14', targets=[T+'tau3l.BR_taul1l2l3', T+'tauvl.br_tauvl', T+'taupl.br_taupl', T+'taulgamma.BR_llgamma', M_+'mu3e.BR_mu3e',
                         M_+'mueconversion.CR_mue', 'flavio.physics.kdecays.kll.br_kll', 'flavio.physics.bdecays.bll.br_inst',
                         'flavio.physics.bdecays.bpll_lfv.bpll_dbrdq2_int', 'flavio.physics.bdecays.bvll.lfv.BR_tot'], max_paths=200, time_limit=600, total=700, native_n=len(LFVOBS))
def no_new_physics(v):
    """lepton flavour is conserved without new physics: every such observable vanishes identically, for any parameters"""
    check_zero(v, LFVOBS)
