"""C22 Drell-Yan tails at high energy: partonic rates from spinor traces, Standard Model amplitudes, SMEFT matching with SU(2) contractions, sums over flavours and bins"""
import itertools
import numpy as np
from vf.api import harness
from vf import phys
from vf.stubs import WC
import wilson
import flavio
from flavio.physics.dileptons import ppll, pplnu, partondist

D_ = 'flavio.physics.dileptons.'
UP, DOWN, PDG = 'uct', 'dsb', {'d': 1, 'u': 2, 's': 3, 'c': 4, 'b': 5}
LEP = ['e', 'mu', 'tau']


def sq(z):
    return z.real**2 + z.imag**2


# ------------------------------------------------------------------ squared amplitudes from traces
def gammas():
    """gamma matrices with exact entries (upper indices), chiral projectors, sigma^{mu nu}"""
    s0, s1, s2, s3 = np.eye(2), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.array([[1, 0], [0, -1]])
    Z = np.zeros((2, 2))
    g = [np.block([[Z, s0], [s0, Z]])] + [np.block([[Z, s], [-s, Z]]) for s in (s1, s2, s3)]
    g5 = np.diag([-1, -1, 1, 1])
    PL, PR = (np.eye(4) - g5)/2, (np.eye(4) + g5)/2
    sig = {(m, n): 0.5j*(g[m] @ g[n] - g[n] @ g[m]) for m in range(4) for n in range(4)}
    return g, PL, PR, sig


MET = [1, -1, -1, -1]


def slash(p, g):
    return sum(MET[m]*p[m]*g[m] for m in range(4))


def bar(G, g):
    return g[0] @ G.conj().T @ g[0]


def squared():
    """spin sum of |(ubar(k1) Gl v(k2)) (vbar(p2) Gq u(p1))|^2 as polynomials in c = cos(theta) and s = sin(theta): dictionary of
    numerical coefficient functions; beams of energy 1/2 along z, so that the partonic centre of mass energy squared is 1"""
    g, PL, PR, sig = gammas()
    p1, p2 = np.array([.5, 0, 0, .5]), np.array([.5, 0, 0, -.5])
    P = {'L': PL, 'R': PR}
    ops = {'V' + a + b: [(g[m] @ P[a], MET[m]*g[m] @ P[b]) for m in range(4)] for a in 'LR' for b in 'LR'}
    ops['SRL'] = [(PR, PL)]
    ops['SRR'] = [(PR, PR)]
    ops['TRR'] = [(sig[m, n] @ PR, MET[m]*MET[n]*sig[m, n] @ PR) for m in range(4) for n in range(4)]

    def f(A, B, c, s):
        k1, k2 = np.array([.5, .5*s, 0, .5*c]), np.array([.5, -.5*s, 0, -.5*c])
        r = 0
        for l1, q1 in ops[A]:
            for l2, q2 in ops[B]:
                L = np.trace(slash(k1, g) @ l1 @ slash(k2, g) @ bar(l2, g))
                Q = np.trace(slash(p2, g) @ q1 @ slash(p1, g) @ bar(q2, g))
                r = r + L*Q
        return r
    return f, list(ops)


# squared amplitudes for unit coefficients and unit centre of mass energy (proved in `squared_amplitudes`): a0 + a1 c + a2 c^2
AMP = {'VLL': (1, 2, 1), 'VRR': (1, 2, 1), 'VLR': (1, -2, 1), 'VRL': (1, -2, 1), 'SRL': (1, 0, 0), 'SRR': (1, 0, 0), 'TRR': (0, 0, 16)}


@harness('C22', native_only=True, native_n=1, level='bounded', note='polynomials of degree two in cos(theta) compared at seven angles with numerical traces (exact for the degree)')
def squared_amplitudes(v):
    """|amplitude|^2 of every four-fermion operator, and interference terms, from Dirac traces"""
    f, ops = squared()
    for c in (-1., -0.8, -0.3, 0., 0.4, 0.6, 1.):
        s = np.sqrt(1 - c**2)
        for A in ops:
            a = AMP[A]
            v.ensure(A, abs(f(A, A, c, s) - (a[0] + a[1]*c + a[2]*c**2)) < 1e-12)
            for B in ops:
                if B == A:
                    continue
                x = f(A, B, c, s)
                if {A, B} == {'SRR', 'TRR'}:
                    # odd under exchange of the beams, which drops out of symmetric integrals
                    v.ensure('interference of scalar and tensor', abs(x + f(A, B, -c, s)) < 1e-12)
                else:
                    v.ensure('no interference', abs(x) < 1e-12)


def marginal(A, lo, hi):
    """integral over lo < |cos(theta)| < hi"""
    a0, _, a2 = AMP[A]
    return 2*(a0*(hi - lo) + a2*(hi**3 - lo**3)/3)


FLUX = 16*12*2          # 1/(2 shat), 1/(16 pi) dcos(theta), spin average 1/4, colour average 1/3


def arrays(v, names, n=None):
    """arbitrary complex coefficients"""
    out = {}
    for k in names:
        A = np.zeros((3, 3, 3, 3), dtype=object)
        for ix in itertools.product(range(3), repeat=4):
            if n is None or ix in n:
                A[ix] = v.cplx('%s_%d%d%d%d' % ((k, ) + ix))
        out[k] = A
    return out


OPS = ['VLL', 'VLR', 'VRL', 'VRR', 'SRL', 'SRR', 'TRR']


@harness('C22', targets=[D_ + 'ppll.sigma_qqll_partonic'])
def partonic_neutral(v):
    """q qbar' -> l l: sum over operators and over the Hermitian conjugate of chirality-flipping ones"""
    t = v.choice('type', ['u', 'd'])
    qs = UP[:2] if t == 'u' else DOWN
    a, b = v.choice('q1', range(len(qs))), v.choice('q2', range(len(qs)))
    l = v.choice('l', LEP)
    il = LEP.index(l)
    wc = arrays(v, ['C%s_e%s' % (o, t) for o in OPS], [(il, il, a, b), (il, il, b, a)])
    sh = v.real('sh', pos=True, dom=(1e5, 1e6))
    tot = 0
    for o in OPS:
        C = wc['C%s_e%s' % (o, t)]
        x = sq(C[il, il, a, b])
        if o[0] != 'V':
            x = x + sq(C[il, il, b, a])
        tot = tot + x*marginal(o, 0, 1)
    v.ensure('cross section', v.eq(ppll.sigma_qqll_partonic(sh, qs[a], qs[b], l, wc)*FLUX*v.pi, sh*tot, scale=1e6))
    try:
        ppll.sigma_qqll_partonic(sh, 'u', 'd', l, wc)
        v.ensure('charge', False)
    except ValueError:
        pass


@harness('C22', targets=[D_ + 'pplnu.dsigma_dtau_qqlnu_partial'])
def partonic_charged(v):
    """q qbar' -> l nu integrated over a bin of transverse mass m_T^2/shat = sin^2(theta), summed over neutrinos"""
    q1, q2, l = v.choice('q1', ['u', 'c']), v.choice('q2', list(DOWN)), v.choice('l', LEP)
    ix = (LEP.index(l), UP.index(q1), DOWN.index(q2))
    need = [(ix[0], n, ix[1], ix[2]) for n in range(3)]
    wc = arrays(v, ['CVLL_enuud', 'CSRL_enuud', 'CSRR_enuud', 'CTRR_enuud'], need)
    s = v.real('s', pos=True, dom=(1e5, 1e6))
    tau = v.real('tau', pos=True, dom=(0.1, 0.9))
    umin, umax = v.real('umin', nonneg=True, dom=(0, 0.05)), v.real('umax', pos=True, dom=(0.06, 1.5))
    v.assume_(v.gt(tau, umin))
    v.assume_(v.gt(umax, umin))
    c0, c1 = 0, v.fsqrt(1 - umin/tau)
    if v.boolean('endpoint'):
        v.assume_(v.ge(umax, tau))
    else:
        v.assume_(v.gt(tau, umax))
        c0 = v.fsqrt(1 - umax/tau)
    got = pplnu.dsigma_dtau_qqlnu_partial(s, tau, umin, umax, q1, q2, l, wc)
    want = sum(sq(wc['C%s_enuud' % o][n])*marginal(o, c0, c1) for o in ('VLL', 'SRL', 'SRR', 'TRR') for n in need)
    v.ensure('cross section', v.eq(got*FLUX*v.pi, s*tau*want, scale=1e6))


# ------------------------------------------------------------------ Standard Model amplitudes
QN = {'u': (0.5, 2/3), 'd': (-0.5, -1/3), 'e': (-0.5, -1)}


def sm_par(v):
    par = v.par()
    for k, d in (('s2w', (0.22, 0.24)), ('alpha_e', (1/130, 1/125)), ('m_Z', (90, 92)), ('m_W', (80, 81)), ('tau_Z', (0.38, 0.42)), ('tau_W', (0.45, 0.5))):
        par[k] = v.real(k, pos=True, dom=d)
    v.assume_(v.gt(1, par['s2w']))
    return par


@harness('C22', targets=[D_ + 'ppll.F_qqll_SM', D_ + 'ppll.wceff_qqll_sm'])
def sm_neutral(v):
    """photon plus Z exchange between chiral currents, flavour diagonal; no scalar or tensor terms"""
    par = sm_par(v)
    s = v.real('s', pos=True, dom=(3e4, 1e6))
    e2 = 4*v.pi*par['alpha_e']
    g2, gp2 = e2/par['s2w']*v.num('0.9608'), e2/(1 - par['s2w'])*v.num('1.0272')
    s2w = gp2/(g2 + gp2)
    wc = ppll.wceff_qqll_sm(s, par)
    den = s - par['m_Z']**2 + v.i()*par['m_Z']/par['tau_Z']
    eff = v.num('1.0010')*s2w
    for q in 'ud':
        for a in 'LR':
            for b in 'LR':
                gl = (QN['e'][0] if a == 'L' else 0) - QN['e'][1]*eff
                gq = (QN[q][0] if b == 'L' else 0) - QN[q][1]*eff
                C = wc['CV%s%s_e%s' % (a, b, q)]
                want = g2*gp2/(g2 + gp2)*QN[q][1]*QN['e'][1]/s + (g2 + gp2)*gl*gq/den
                x = C[0, 0, 0, 0]
                v.ensure('%s%s %s' % (a, b, q), v.eq(x*s, want*s, scale=1))
                v.ensure('flavour', all(C[i, j, k, l] == 0 if i != j or k != l else v.eq(C[i, j, k, l], x) for i, j, k, l in
                                        ((0, 1, 0, 0), (0, 0, 1, 2), (1, 1, 2, 2), (2, 2, 0, 0), (2, 1, 0, 0))))
        v.ensure('no chirality flip', all(not wc['C%s_e%s' % (o, q)].any() and wc['C%s_e%s' % (o, q)].shape == (3, )*4 for o in ('SRL', 'SRR', 'TRR')))


@harness('C22', targets=[D_ + 'pplnu.F_qqlnu_SM', D_ + 'pplnu.wceff_qqlnu_sm'])
def sm_charged(v):
    """W exchange between left-handed currents with the CKM matrix of the quark transition"""
    par = sm_par(v)
    phys.ckm_contract(v)
    from flavio.physics import ckm
    V = ckm.get_ckm(par)
    s = v.real('s', pos=True, dom=(3e4, 1e6))
    g2 = 4*v.pi*par['alpha_e']/par['s2w']*v.num('0.9608')
    wc = pplnu.wceff_qqlnu_sm(s, par)
    for i, j, k, l in itertools.product(range(3), repeat=4):
        C = wc['CVLL_enuud'][i, j, k, l]
        if i != j:
            v.ensure('lepton flavour', v.eq(C, 0))
        elif i in (0, 2):
            v.ensure('W exchange', v.eq(2*C*(s - par['m_W']**2 + v.i()*par['m_W']/par['tau_W']), g2*V[k, l]))
    v.ensure('no chirality flip', all(not wc['C%s_enuud' % o].any() and wc['C%s_enuud' % o].shape == (3, )*4 for o in ('SRL', 'SRR', 'TRR')))


# ------------------------------------------------------------------ SMEFT matching
class Smeft:
    """Wilson coefficients in the Warsaw-up basis at the requested scale, recorded"""

    def __init__(self, C):
        self.C, self.calls = C, []

    def get_wcxf(self, sector, scale, par, eft, basis, nf_out=None):
        self.calls.append((sector, scale, eft, basis))
        return type('W', (), {'dict': self.C})


PAULI = [[[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]]
EPS = [[0, 1], [-1, 0]]


def smeft(v, i, j):
    """the lepton flavour entries (i, j) and (j, i), all quark flavours"""
    names = ['lq1', 'lq3', 'lu', 'ld', 'eu', 'ed', 'ledq', 'lequ1', 'lequ3']
    C = arrays(v, names, [(a, b, k, l) for a, b in {(i, j), (j, i)} for k in range(3) for l in range(3)])
    C.update(arrays(v, ['qe'], [(k, l, a, b) for a, b in {(i, j), (j, i)} for k in range(3) for l in range(3)]))
    v.setattr(wilson.util.smeftutil, 'wcxf2arrays_symmetrized', lambda d: d)
    return C, Smeft(C)


def quark(V, isospin, m, k):
    """component of the doublet q_m = (u_m, V_mk d_k) along the mass eigenstate k"""
    return (1 if m == k else 0) if isospin == 0 else V[m, k]


def conj(z):
    return z.conjugate() if hasattr(z, 'conjugate') else z


def doublets(V, C, C3, i, j, k, l, la, lb, qa, qb):
    """coefficient of (lbar_i^la gamma l_j^lb)(qbar_k^qa gamma q_l^qb) from the singlet and triplet contractions; zero entries are skipped"""
    w3 = sum(PAULI[n][la][lb]*PAULI[n][qa][qb] for n in range(3))
    w1 = 1 if la == lb and qa == qb else 0
    w3 = int(round(complex(w3).real))
    tot = 0
    for m, n in itertools.product(range(3), repeat=2):
        if qa == 0 and m != k or qb == 0 and n != l:
            continue
        x = 0
        if w1:
            x = x + w1*C[i, j, m, n]
        if w3:
            x = x + w3*C3[i, j, m, n]
        if w1 or w3:
            tot = tot + conj(quark(V, qa, m, k))*quark(V, qb, n, l)*x
    return tot


@harness('C22', targets=[D_ + 'ppll.wceff_qqll_np'], max_paths=40)
def matching_neutral(v):
    """operators of mass eigenstates of charged leptons and quarks from the SU(2) contractions of the Warsaw operators in the up-aligned basis"""
    par = sm_par(v)
    phys.ckm_contract(v)
    from flavio.physics import ckm
    V = ckm.get_ckm(par)
    i, j = v.choice('leptons', [(0, 0), (1, 0), (1, 1), (2, 1)])
    C, w = smeft(v, i, j)
    scale = v.real('scale', pos=True, dom=(500, 2000))
    wc = ppll.wceff_qqll_np(w, par, scale)
    v.ensure('coefficients requested', len(w.calls) == 1 and (w.calls[0][0], ) + w.calls[0][2:] == ('dB=dL=0', 'SMEFT', 'Warsaw up') and v.eq(w.calls[0][1], scale))
    R3 = range(3)
    for k, l in itertools.product(R3, R3):
        ix = (i, j, k, l)
        v.ensure('VLL', v.and_(v.eq(wc['CVLL_eu'][ix], doublets(V, C['lq1'], C['lq3'], *ix, 1, 1, 0, 0)), v.eq(wc['CVLL_ed'][ix], doublets(V, C['lq1'], C['lq3'], *ix, 1, 1, 1, 1))))
        v.ensure('VRR', v.and_(v.eq(wc['CVRR_eu'][ix], C['eu'][ix]), v.eq(wc['CVRR_ed'][ix], C['ed'][ix])))
        v.ensure('VLR', v.and_(v.eq(wc['CVLR_eu'][ix], C['lu'][ix]), v.eq(wc['CVLR_ed'][ix], C['ld'][ix])))
        v.ensure('VRL', v.and_(v.eq(wc['CVRL_eu'][ix], C['qe'][k, l, i, j]),
                               v.eq(wc['CVRL_ed'][ix], sum(conj(V[m, k])*V[n, l]*C['qe'][m, n, i, j] for m in R3 for n in R3))))
        # (lbar^a e)(dbar q^a), a = charged lepton, down quark
        v.ensure('SRL', v.and_(v.eq(wc['CSRL_ed'][ix], sum(C['ledq'][i, j, k, m]*quark(V, 1, m, l) for m in R3)), wc['CSRL_eu'][ix] == 0))
        # (lbar^a e) eps_ab (qbar^b u), a = charged lepton, b = up quark
        v.ensure('SRR', v.and_(v.eq(wc['CSRR_eu'][ix], EPS[1][0]*C['lequ1'][ix]), wc['CSRR_ed'][ix] == 0))
        v.ensure('TRR', v.and_(v.eq(wc['CTRR_eu'][ix], EPS[1][0]*C['lequ3'][ix]), wc['CTRR_ed'][ix] == 0))


@harness('C22', targets=[D_ + 'pplnu.wceff_qqlnu_np'], max_paths=40)
def matching_charged(v):
    """(e nu)(u d) operators from the Warsaw operators and their Hermitian conjugates in the up-aligned basis"""
    par = sm_par(v)
    phys.ckm_contract(v)
    from flavio.physics import ckm
    V = ckm.get_ckm(par)
    i, j = v.choice('leptons', [(0, 0), (1, 0), (1, 1), (0, 2)])
    C, w = smeft(v, i, j)
    scale = v.real('scale', pos=True, dom=(500, 2000))
    wc = pplnu.wceff_qqlnu_np(w, par, scale)
    v.ensure('coefficients requested', len(w.calls) == 1 and (w.calls[0][0], ) + w.calls[0][2:] == ('dB=dL=0', 'SMEFT', 'Warsaw up') and v.eq(w.calls[0][1], scale))
    R3 = range(3)
    for k, l in itertools.product(R3, R3):
        ix = (i, j, k, l)
        v.ensure('VLL', v.eq(wc['CVLL_enuud'][ix], doublets(V, C['lq1'], C['lq3'], *ix, 1, 0, 0, 1)))
        # Hermitian conjugate of (nubar_j e_i)(dbar_l u_k)
        v.ensure('SRL', v.eq(wc['CSRL_enuud'][ix], conj(C['ledq'][j, i, l, k])))
        # Hermitian conjugate of eps_ab (nubar_j^a e_i)(qbar_m^b u_k), a = 0, b = 1
        for n, o in (('SRR', 'lequ1'), ('TRR', 'lequ3')):
            v.ensure(n, v.eq(wc['C%s_enuud' % n][ix], EPS[0][1]*sum(conj(C[o][j, i, m, k])*V[m, l] for m in R3)))


# ------------------------------------------------------------------ hadronic cross sections
def lumi(v, calls):
    class L:
        def __init__(self, Q2, member=0):
            calls.append((Q2, member))

        def L(self, a, b, tau):
            return v.uf('lumi', str(a), str(b), tau, pos=True, dom=(0.1, 1.0))
    v.setattr(partondist, 'get_parton_lumi', lambda Q2, member=0: L(Q2, member))


def member(v, par):
    par[flavio.config['PDF set']['dileptons']['members par']] = v.choice('member', [0, 4])


@harness('C22', targets=[D_ + 'ppll.dsigma_dtau_qqll', D_ + 'pplnu.dsigma_dtau_qqlnu'], max_paths=40)
def flavour_sums(v):
    """every quark-antiquark pair of the right charges, from both beams, with the luminosity of the configured PDF member"""
    par, calls = sm_par(v), []
    lumi(v, calls)
    member(v, par)
    s, tau = v.real('s', pos=True, dom=(1e5, 1e6)), v.real('tau', pos=True, dom=(0.1, 0.9))
    Q2 = v.real('Q2', pos=True, dom=(1e5, 1e6))
    u0, u1 = v.real('u0', pos=True, dom=(0.01, 0.05)), v.real('u1', pos=True, dom=(0.06, 0.09))
    l, zero = v.choice('l', LEP), v.choice('vanishing', [(), ('d', 's', 'b')])
    wc = {'token': 0}

    s0, tau0 = s, tau

    def nc(sh, q1, q2, l, wc_eff):
        v.ensure('partonic energy', v.eq(sh, s0*tau0, scale=1e5))
        return v.uf('sig', q1, q2, l, pos=True, dom=(0.1, 1)) if not (q1 != q2 and q1 in zero) else 0

    def cc(s, tau, umin, umax, q1, q2, l, wc_eff):
        v.ensure('arguments', v.and_(v.eq(s, s0, scale=1e5), v.eq(tau, tau0), v.eq(umin, u0), v.eq(umax, u1)))
        return v.uf('sigc', q1, q2, l, pos=True, dom=(0.1, 1)) if q2 not in zero[:1] else 0
    v.setattr(ppll, 'sigma_qqll_partonic', nc)
    v.setattr(pplnu, 'dsigma_dtau_qqlnu_partial', cc)
    L = lambda a, b: v.uf('lumi', str(PDG[a]), str(-PDG[b]), tau, pos=True, dom=(0.1, 1.0))
    want = 2*sum(L(a, b)*nc(s*tau, a, b, l, wc) for qs in ('uc', 'dsb') for a in qs for b in qs)
    v.ensure('neutral', v.eq(ppll.dsigma_dtau_qqll(s, tau, l, Q2, wc, par), want, scale=5))
    # W-: u-type antiquark and d-type quark; W+: the conjugate
    want = 2*sum((L(b, a) + L(a, b))*cc(s, tau, u0, u1, a, b, l, wc) for a in 'uc' for b in 'dsb')
    v.ensure('charged', v.eq(pplnu.dsigma_dtau_qqlnu(s, tau, u0, u1, l, wc, par, Q2), want, scale=5))
    v.ensure('luminosity', len(calls) == 2 and all(v.eq(q, Q2, scale=1e5) and m == par[flavio.config['PDF set']['dileptons']['members par']] for q, m in calls))


@harness('C22', targets=[D_ + 'ppll.R_sigma_qqll_int', D_ + 'ppll.sigma_qqll_int', D_ + 'ppll.R_sigma_qqll_int_fct_lhc13', D_ + 'pplnu.R_sigma_qqlnu_int', D_ + 'pplnu.sigma_qqlnu_int',
                         D_ + 'pplnu.R_sigma_qqlnu_int_fct_lhc13'], max_paths=20)
def ratios(v):
    """cross section over its Standard Model value in the bin: amplitudes add coherently at the partonic energy, coefficients at the middle of the bin; one without new physics"""
    par = sm_par(v)
    quad = phys.integral_contract(v)
    if not v.sym:
        quad = lambda f, a, b, **k: (b - a)*(f(a + 0.3*(b - a)) + 2*f(a + 0.7*(b - a)))/3
        v.setattr(ppll, 'nintegrate', quad)
        v.setattr(pplnu, 'nintegrate', quad)
    l = v.choice('l', ['e', 'mu'])
    np_ = v.boolean('new physics')
    a, b = v.real('a', pos=True, dom=(500, 700)), v.real('b', pos=True, dom=(800, 1000))
    v.assume_(v.gt(b, a))
    v.assume_(v.gt(13000, b))
    S = 13000**2
    mid = (a + b)/2
    token = WC(v.real('w'))

    def sm(s, par):
        return {'X': np.array([[v.uf('sm', s, dom=(1, 2))]], dtype=object)}

    def smeft_part(wc_obj, par, scale):
        return {'X': np.array([[v.uf('np', scale, dom=(0.1, 1)) if np_ else v.num(0)]], dtype=object)}
    for m, n in ((ppll, 'qqll'), (pplnu, 'qqlnu')):
        v.setattr(m, 'wceff_%s_sm' % n, sm)
        v.setattr(m, 'wceff_%s_np' % n, smeft_part)
    rate = lambda k, tau, lep, Q2, x: v.uf(k, tau, lep, Q2, x, pos=True, dom=(1, 2))
    v.setattr(ppll, 'dsigma_dtau_qqll', lambda s, tau, l, Q2, wc_eff, par: rate('nc%s' % s, tau, l, Q2, wc_eff['X'][0, 0]))
    v.setattr(pplnu, 'dsigma_dtau_qqlnu', lambda s, tau, umin, umax, l, wc_eff, par, Q2: v.uf('cc%s' % s, tau, umin, umax, l, Q2, wc_eff['X'][0, 0], pos=True, dom=(1, 2)))
    new = lambda: v.uf('np', mid, dom=(0.1, 1)) if np_ else 0
    for k, obs in (('nc', 'R_13(pp->%s)' % (2*l)), ('cc', 'R_13(pp->%snu)' % l)):
        got = flavio.Observable[obs].prediction_par(par, token, a, b)

        def sig(x):
            if k == 'nc':
                f = lambda tau: rate('nc%s' % S, tau, l, mid**2, v.uf('sm', tau*S, dom=(1, 2)) + x)
                return quad(f, a**2/S, b**2/S)
            f = lambda tau: v.uf('cc%s' % S, tau, a**2/S, b**2/S, l, mid**2, v.uf('sm', tau*S, dom=(1, 2)) + x, pos=True, dom=(1, 2))
            return quad(f, a**2/S, 1)
        v.ensure('%s ratio' % k, v.eq(got*sig(0), sig(new())))
        if not np_:
            v.ensure('%s Standard Model' % k, v.eq(got, 1))
