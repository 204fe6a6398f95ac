"""C15 meson-antimeson mixing"""
import cmath
import math
from vf.api import harness
from vf.phys import wcs, ckm_contract, running_contract, masses_contract
import flavio
from flavio.physics.mesonmixing import common, observables, amplitude
from flavio.physics.mesonmixing import wilsoncoefficient as wcoef

P = 'flavio.physics.mesonmixing.'


def MG(v):
    return v.cplx('M12'), v.cplx('G12')


@harness('C15', targets=[P + 'common.DeltaM', P + 'common.DeltaGamma', P + 'common.q_over_p'])
def eigenvalue_equations(v):
    """(dM, dGamma) solve the characteristic equation of M - i Gamma/2"""
    M, G = MG(v)
    v.assume_(2*M - 1j*G != 0)      # exceptional point: H12 = 0
    dm, dg = common.DeltaM(M, G), common.DeltaGamma(M, G)
    s = abs(M)**2 + abs(G)**2
    v.ensure('dM2-dG2/4 = 4|M12|^2-|G12|^2', v.eq(dm**2 - dg**2/4, 4*abs(M)**2 - abs(G)**2, scale=s))
    v.ensure('dM dG = -4 Re(M12 G12*)', v.eq(dm*dg, -4*(M*G.conjugate()).real, scale=s))


@harness('C15', targets=[P + 'common.q_over_p'])
def q_over_p_law(v):
    M, G = MG(v)
    v.assume_(2*M - 1j*G != 0)
    qp = common.q_over_p(M, G)
    v.ensure('(q/p)^2', v.eq(qp*qp*(2*M - 1j*G), 2*M.conjugate() - 1j*G.conjugate(), scale=4*(abs(M)+abs(G))))
    v.ensure('|q/p|', v.eq(abs(qp)**4 * abs(2*M-1j*G)**2, abs(2*M.conjugate()-1j*G.conjugate())**2, scale=abs(M)**2+abs(G)**2))


@harness('C15', targets=[P + 'common.q_over_p', P + 'common.DeltaM', P + 'common.DeltaGamma', P + 'common.a_fs'])
def cp_conserving(v):
    """real M12 and G12: |q/p|=1, no flavour-specific asymmetry"""
    m, g = v.real('m'), v.real('g')
    v.assume_(g != 0)
    v.assume_(m != 0)
    i = v.i()
    M, G = m + 0*i, g + 0*i
    qp = common.q_over_p(M, G)
    v.ensure('|q/p|=1', v.eq(abs(qp), 1))
    v.ensure('a_fs=0', v.eq(common.a_fs(M, G), 0, scale=1))


@harness('C15', targets=[P + 'common.a_fs'])
def afs_law(v):
    """a_fs = Im(G12/M12) up to the sign convention (-M12/G12): a = -Im(M12/G12)|G12|^2/|M12|^2"""
    M, G = MG(v)
    v.assume_(M != 0)
    v.assume_(G != 0)
    a = common.a_fs(M, G)
    v.ensure('Im(Gamma12/M12)', v.eq(a, (G/M).imag, scale=abs(G/M)))


@harness('C15', targets=[P + 'common.DeltaM', P + 'common.DeltaGamma', P + 'common.q_over_p', P + 'common.a_fs'])
def conjugation(v):
    """exchanging meson and antimeson (complex conjugate M12, G12) leaves the splittings' physical
    invariants unchanged, inverts q/p and flips a_fs"""
    M, G = MG(v)
    v.assume_(M != 0)
    v.assume_(G != 0)
    a, b = common.q_over_p(M, G), common.q_over_p(M.conjugate(), G.conjugate())
    v.assume_(2*M - 1j*G != 0)
    v.assume_(2*M.conjugate() - 1j*G.conjugate() != 0)
    v.ensure('(q/p)^2 inverted', v.eq(a*a*b*b, 1))
    v.ensure('a_fs odd', v.eq(common.a_fs(M.conjugate(), G.conjugate()), -common.a_fs(M, G), scale=abs(G/M)))
    dm, dm2 = common.DeltaM(M, G), common.DeltaM(M.conjugate(), G.conjugate())
    v.ensure('|dM|', v.eq(dm2**2 - common.DeltaGamma(M.conjugate(), G.conjugate())**2/4, dm**2 - common.DeltaGamma(M, G)**2/4,
                          scale=abs(M)**2+abs(G)**2))


def mgc(v):
    """M12/G12 as arbitrary complex numbers: contract for get_M12_G12"""
    M, G = MG(v)
    if v.sym:
        v.contract(observables.get_M12_G12, lambda wc_obj, par, meson: (M, G))
    else:
        v.setattr(observables, 'get_M12_G12', lambda wc_obj, par, meson: (M, G))
    return M, G


O = P + 'observables.'


@harness('C15', targets=[O + 'DeltaM_positive', O + 'DeltaM_12', O + 'DeltaGamma_B', O + 'DeltaGamma_12', O + 'x', O + 'y',
                         O + 'x12', O + 'y12', O + 'q_over_p'], uses=[O + 'get_M12_G12'])
def observables_from_M12(v):
    M, G = mgc(v)
    v.assume_(2*M - 1j*G != 0)
    par = v.par()
    wc = wcs(v)
    dm, dg = common.DeltaM(M, G), common.DeltaGamma(M, G)
    dmp = observables.DeltaM_positive(wc, par, 'Bs')
    v.ensure('DeltaM>=0', v.ge(dmp, 0))
    v.ensure('DeltaM^2', v.eq(dmp**2, dm**2, scale=abs(M)**2+abs(G)**2))
    dgb = observables.DeltaGamma_B(wc, par, 'Bs')
    v.ensure('DeltaGamma_B=-4Re(M12 G12*)/DeltaM', v.eq(dgb*dmp, -4*(M*G.conjugate()).real, scale=abs(M)**2+abs(G)**2))
    v.ensure('DeltaM_12=M1-M2', v.eq(observables.DeltaM_12(wc, par, 'D0'), -dm, scale=abs(M)+abs(G)))
    v.ensure('DeltaGamma_12=G1-G2', v.eq(observables.DeltaGamma_12(wc, par, 'D0'), dg, scale=abs(M)+abs(G)))
    tau = par['tau_D0']
    x, y = observables.x(wc, par, 'D0'), observables.y(wc, par, 'D0')
    x12, y12 = observables.x12(wc, par, 'D0'), observables.y12(wc, par, 'D0')
    sc = tau**2*(abs(M)**2+abs(G)**2)
    v.ensure('x12>=0', v.ge(x12, 0))
    v.ensure('y12>=0', v.ge(y12, 0))
    v.ensure('x12', v.eq(x12, 2*abs(M)*tau))
    v.ensure('y12', v.eq(y12, abs(G)*tau))
    v.ensure('x^2-y^2=x12^2-y12^2', v.eq(x**2 - y**2, x12**2 - y12**2, scale=sc))
    v.ensure('xy=2Re(M12 G12*)tau^2', v.eq(x*y, 2*(M*G.conjugate()).real*tau**2, scale=sc))


@harness('C15', targets=[O + 'phi12', O + 'x12Im', O + 'x12'], uses=[O + 'get_M12_G12'])
def phi12_laws(v):
    M, G = mgc(v)
    v.assume_(M != 0)
    v.assume_(G != 0)
    par, wc = v.par(), wcs(v)
    x12, y12 = observables.x12(wc, par, 'D0'), observables.y12(wc, par, 'D0')
    phi = observables.phi12(wc, par, 'D0')
    x12im = observables.x12Im(wc, par, 'D0')
    tau = par['tau_D0']
    v.ensure('x12Im=x12 sin phi12', v.eq(x12im, x12*v.fsin(phi), scale=x12))
    v.ensure('x12 y12 cos phi12', v.eq(x12*y12*v.fcos(phi), 2*(M*G.conjugate()).real*tau**2, scale=x12*y12))
    v.ensure('x12 y12 sin phi12', v.eq(x12*y12*v.fsin(phi), 2*(M*G.conjugate()).imag*tau**2, scale=x12*y12))


@harness('C15', targets=[O + 'S', O + 'S_BJpsiK', O + 'S_Bspsiphi'], uses=[O + 'get_M12_G12', 'flavio.physics.ckm.get_ckm'])
def S_range(v):
    """mixing-induced asymmetry is an asymmetry: |S| <= 1"""
    M, G = mgc(v)
    par, wc = v.par(), wcs(v)
    A, Ab = v.cplx('A'), v.cplx('Abar')
    v.assume_(Ab != 0)
    par['gamma']

    def amp(p):
        return A if p is par else Ab
    eta = v.choice('eta', [1, -1])
    for s in (observables.S(wc, par, 'B0', amp, etaCP=eta),):
        v.ensure('S<=1', v.le(s, 1))
        v.ensure('S>=-1', v.ge(s, -1))


@harness('C15', targets=[O + 'S', O + 'S_BJpsiK', O + 'S_Bspsiphi', O + 'amplitude_BJpsiK', O + 'amplitude_Bspsiphi'],
         uses=[O + 'get_M12_G12', 'flavio.physics.ckm.get_ckm'])
def S_formula(v):
    """Gamma12=0 limit: S = eta * sin(arg(M12 ...)): S^2 + C^2 <= 1 with |q/p|=1 and pure phase amplitudes"""
    M = v.cplx('M12')
    v.assume_(M != 0)
    if v.sym:
        v.contract(observables.get_M12_G12, lambda wc_obj, par, meson: (M, 0))
        ckm_contract(v)
    else:
        v.setattr(observables, 'get_M12_G12', lambda wc_obj, par, meson: (M, 0))
    par, wc = v.par(), wcs(v)
    from flavio.physics import ckm
    if v.sym:
        # contract of q_over_p (C15/q_over_p_law) at Gamma12=0: Q^2 M = M*
        Q = v.cplx('Q')
        v.assume_(Q*Q*M == M.conjugate())
        v.contract(common.q_over_p, lambda M12, G12: Q)
        # complete square root: Q M is real with modulus |M|
        if (Q*M).real > 0:
            v.lemma('Qre+', v.eq(Q.real, M.real/abs(M)))
            v.lemma('Qim+', v.eq(Q.imag, -M.imag/abs(M)))
        else:
            v.lemma('Qre-', v.eq(Q.real, -M.real/abs(M)))
            v.lemma('Qim-', v.eq(Q.imag, M.imag/abs(M)))
    for f, eta, bc in ((observables.S_BJpsiK, -1, 'bd'), (observables.S_Bspsiphi, 1, 'bs')):
        s = f(wc, par)
        xi = ckm.xi('c', bc)(par)
        # DeltaM>0 branch: q/p = -M12*/|M12|
        ratio = xi / xi.conjugate()
        v.ensure('S_' + bc, v.eq(s * abs(M), eta * (M.conjugate() * ratio).imag, scale=abs(M), tol=1e-4))


@harness('C15', targets=[P + 'amplitude.M12', P + 'amplitude.matrixelements', P + 'amplitude.M12_d_SM', P + 'amplitude.M12_u_SM'],
         uses=['wilson.util.qcd', 'flavio.physics.ckm.get_ckm', P + 'wilsoncoefficient.cvll_d'])
def M12_linear_in_NP(v):
    """M12 is the SM amplitude plus a linear form in the Wilson coefficients with real, parity-symmetric
    matrix elements (VLL=VRR, SLL=SRR, TLL=TRR)"""
    ckm_contract(v) if v.sym else None
    if v.sym:
        running_contract(v)
        v.contract(wcoef.cvll_d, lambda par, meson: v.ufc('cvll.' + meson))
    par = v.par()
    meson = v.choice('meson', ['B0', 'Bs', 'K0', 'D0'])
    q = 2*common.meson_quark[meson]
    names = ['CVLL', 'CVRR', 'CSLL', 'CSRR', 'CTLL', 'CTRR', 'CVLR', 'CSLR']
    C = {n + '_' + q: v.cplx(n) for n in names}
    sm = amplitude.M12(par, {}, meson)
    full = amplitude.M12(par, C, meson)
    me = amplitude.matrixelements(par, meson)
    lin = 0
    for n in names:
        lin = lin + me[n] * C[n + '_' + q]
    sc = abs(sm) + sum(abs(me[n]) for n in names)
    v.ensure('linear', v.eq(full, sm - lin, scale=sc))
    for a in ('CV', 'CS', 'CT'):
        v.ensure(a + ' parity', v.eq(me[a+'LL'], me[a+'RR']))
    mirror = {('CVRR_' if k.startswith('CVLL') else 'CVLL_' if k.startswith('CVRR') else 'CSRR_' if k.startswith('CSLL')
               else 'CSLL_' if k.startswith('CSRR') else 'CTRR_' if k.startswith('CTLL') else 'CTLL_' if k.startswith('CTRR')
               else k[:5]) + (q if not k.startswith(('CVLR', 'CSLR')) else '')
              : x for k, x in C.items()}
    mirror = {k if '_' in k and k.split('_')[1] else k + q: x for k, x in mirror.items()}
    v.ensure('L<->R symmetric', v.eq(amplitude.M12(par, mirror, meson), full, scale=sc))
    z = {k: 0*x for k, x in C.items()}
    v.ensure('zero NP = SM', v.eq(amplitude.M12(par, z, meson), sm, scale=abs(sm)))


@harness('C15', targets=[P + 'amplitude.M12_d_SM', P + 'amplitude.M12_u_SM', P + 'amplitude.G12_d', P + 'amplitude.G12_u',
                         P + 'amplitude.G12_d_SM', P + 'amplitude.G12_u_SM', P + 'wilsoncoefficient.cvll_d'],
         uses=['wilson.util.qcd', 'flavio.physics.ckm.get_ckm', P + 'wilsoncoefficient.S0_box'])
def sm_amplitude_conjugation(v):
    """CP-conjugate parameters give the complex-conjugate SM mixing amplitudes"""
    if v.sym:
        ckm_contract(v)
        running_contract(v)
        v.contract(wcoef.S0_box, lambda x, y, xu=0: v.uf('S0', x, y, xu))
    par = v.par()
    from flavio.physics.common import conjugate_par
    cpar = conjugate_par(par)
    meson = v.choice('meson', ['B0', 'Bs', 'K0', 'D0'])
    if meson == 'D0':
        m, mc = amplitude.M12_u_SM(par), amplitude.M12_u_SM(cpar)
        g, gc = amplitude.G12_u(par, {}), amplitude.G12_u(cpar, {})
    else:
        m, mc = amplitude.M12_d_SM(par, meson), amplitude.M12_d_SM(cpar, meson)
        g, gc = (amplitude.G12_d(par, {}, meson), amplitude.G12_d(cpar, {}, meson)) if meson != 'K0' else (0, 0)
    v.ensure('M12*', v.eq(mc, m.conjugate(), scale=abs(m)))
    v.ensure('G12*', v.eq(gc, g.conjugate() if g is not 0 else 0, scale=abs(g)))


@harness('C15', targets=[P + 'wilsoncoefficient.F_box', P + 'wilsoncoefficient.S0_box'])
def box_symmetric(v):
    """box functions are symmetric in the two internal quarks and GIM-vanish for equal masses"""
    x, y, u = v.real('x', pos=True), v.real('y', pos=True), v.real('u', nonneg=True)
    for t in (x, y, u):
        v.assume_(t != 1)
    v.ensure('F symmetric', v.eq(wcoef.F_box(x, y), wcoef.F_box(y, x), tol=1e-5))
    v.ensure('S0 symmetric', v.eq(wcoef.S0_box(x, y, u), wcoef.S0_box(y, x, u), tol=1e-4, scale=1))
    v.ensure('GIM', v.eq(wcoef.S0_box(u, x, u), 0, tol=1e-4, scale=1))


@harness('C15', targets=[O + 'epsK'], uses=[O + 'get_M12_G12'])
def epsK_law(v):
    M, G = mgc(v)
    par, wc = v.par(), wcs(v)
    e = observables.epsK(wc, par)
    v.ensure('odd under CP', v.eq(e * par['DeltaM_K0'] * v.fsqrt(2), par['kappa_epsilon'] * M.imag, scale=abs(M)))


# ------------------------------------------------------------------ SM amplitude: box, matching, matrix elements
def box_ref(v, x, y):
    """F(x,y) = (1+xy/4) A + 2xy B with A, B the W-box integrals: int du u^2, u over (u+1)^2 (u+x)(u+y), by residues"""
    lx, ly = v.flog(x), v.flog(y)
    p = 1/((1-x)*(1-y))
    A = -x**2*lx/((y-x)*(1-x)**2) - y**2*ly/((x-y)*(1-y)**2) + p
    B = x*lx/((y-x)*(1-x)**2) + y*ly/((x-y)*(1-y)**2) - p
    return (1 + x*y/4)*A + 2*x*y*B


@harness('C15', targets=[P + 'wilsoncoefficient.F_box', P + 'wilsoncoefficient.S0_box'])
def box_integral(v):
    """the box function is the loop integral, in every mass configuration; S0 of one heavy quark is the Inami-Lim function"""
    x, y, u = [v.real(n, dom=(0.05, 0.9)) for n in 'xyu']
    for t in (x, y, u):
        v.assume_(t > 0)
        v.assume_(t != 1)
    v.assume_(v.and_(x != y, x != u, y != u))
    lx = v.flog(x)
    F = wcoef.F_box
    v.ensure('unequal masses', v.eq(F(x, y), box_ref(v, x, y), tol=1e-6))
    v.ensure('massless', v.eq(F(0, 0), 1))
    for n, a, b in (('x0', x, 0), ('0x', 0, x)):
        v.ensure('one massless '+n, v.eq(F(a, b), x*lx/(1-x)**2 + 1/(1-x), tol=1e-6))
    A = (1 + x - 2*x*lx/(x-1))/(1-x)**2
    B = ((1+x)*lx/(x-1) - 2)/(1-x)**2
    eq = (1 + x**2/4)*A + 2*x**2*B
    v.ensure('equal masses', v.eq(F(x, x), eq, tol=1e-6))
    v.ensure('Inami-Lim', v.eq(wcoef.S0_box(x, x), (4*x - 11*x**2 + x**3)/(4*(1-x)**2) - 3*x**3*lx/(2*(1-x)**3), tol=1e-6))
    v.ensure('S0', v.eq(wcoef.S0_box(x, y, u), F(x, y) + F(u, u) - F(x, u) - F(y, u), scale=1))


@harness('C15', targets=[P + 'wilsoncoefficient.cvll_d'], uses=[P + 'wilsoncoefficient.S0_box', 'flavio.physics.ckm.get_ckm', 'wilson.util.qcd'])
def sm_matching(v):
    """C_VLL = -GF^2 mW^2/(4 pi^2) times the sum over internal quarks of QCD factor, CKM factors and box function of the right masses"""
    par = v.par()
    if v.sym:
        ckm_contract(v)
        running_contract(v)
        v.contract(P + 'wilsoncoefficient:S0_box', lambda x, y, xu=0: v.uf('S0', x, y, xu))
    S0 = wcoef.S0_box
    m = {'t': flavio.physics.running.running.get_mt_mt(par), 'c': par['m_c'], 'u': par['m_u']}
    X = {q: (m[q]/par['m_W'])**2 for q in m}
    N = -par['GF']**2*par['m_W']**2/(4*v.pi**2)
    for M in ('B0', 'Bs', 'K0'):
        q = common.meson_quark[M]
        V = flavio.physics.ckm.get_ckm(par)
        d = {'b': 2, 's': 1, 'd': 0}
        xi = {k: V[i, d[q[0]]]*V[i, d[q[1]]].conjugate() for i, k in enumerate('uct')}
        for ut in ((False, True) if M == 'K0' else (False,)):
            v.setattr(flavio.physics.mesonmixing.wilsoncoefficient, 'config',
                      {'implementation': {'K mixing unitarity': 'ut' if ut else 'ct'}})
            l, r, s = ('u', 'c', '_ut') if ut else ('c', 'u', '')
            ref = par['eta_tt_'+M+s]*xi['t']**2*S0(X['t'], X['t'], X[r])
            if M == 'K0':
                ref += par['eta_%st_%s%s' % (l, M, s)]*2*xi[l]*xi['t']*S0(X[l], X['t'], X[r])
                ref += par['eta_%s%s_%s%s' % (l, l, M, s)]*xi[l]**2*S0(X[l], X[l], X[r])
            sc = abs(N)*(abs(xi['t']) + abs(xi[l]))**2*10
            v.ensure(M+' '+l, v.eq(wcoef.cvll_d(par, M), N*ref, scale=sc))


@harness('C15', targets=[P + 'amplitude.matrixelements', P + 'common.bag_msbar2rgi'], uses=['wilson.util.qcd'])
def vacuum_insertion(v):
    """matrix elements: bag parameter times vacuum insertion, i.e. the direct contraction plus 1/3 of the Fierz-crossed one, of the
    axial current f p and of the density f M^2/(m1+m2), twice, over 2M"""
    par = v.par()
    if v.sym:
        masses_contract(v)
    M = v.choice('meson', ['B0', 'Bs', 'K0', 'D0'])
    mM, f = par['m_'+M], par['f_'+M]
    B = {i: par['bag_%s_%d' % (M, i)] for i in range(1, 6)}
    me = amplitude.matrixelements(par, M)
    sc = flavio.config['renormalization scale'][M+' mixing']
    q = common.meson_quark[M]
    from flavio.physics.running import running
    r = (mM/(running.get_mq(q[0], par, sc) + running.get_mq(q[1], par, sc)))**2
    third, half = v.num('1/3'), v.num('1/2')
    ax = 2*(f*mM)**2/4/(2*mM)         # chirality projectors 1/4, two ways to contract
    de = ax*r
    # Fierz: VLL -> VLL; SLL -> -1/2 SLL + tensor; VLR -> -2 SLR; TLL = -4 SLL - 8 SLL(crossed colours)
    v.ensure('VLL', v.eq(me['CVLL'], B[1]*ax*(1 + third)))
    v.ensure('SLL', v.eq(me['CSLL'], -B[2]*de*(1 - half*third)))
    v.ensure('SLR', v.eq(me['CSLR'], B[4]*de))
    v.ensure('VLR', v.eq(me['CVLR'], -2*B[5]*de*third))
    v.ensure('TLL', v.eq(me['CTLL'], -4*(-B[2]*de*(1 - half*third)) - 8*(-B[3]*de*(third - half)), scale=mM*f*f*r))
    for x in ('V', 'S', 'T'):
        v.ensure('parity '+x, v.eq(me['C%sLL' % x], me['C%sRR' % x]))
    if M != 'D0':
        a = v.real('alphas', dom=(0.1, 0.4), pos=True)
        nf = 3 if M == 'K0' else 5
        b = common.bag_msbar2rgi(a, M)
        ex = v.num('2/9') if nf == 3 else v.num('6/23')      # 6/(33-2nf)
        J = {3: v.num('307/162'), 5: v.num('5165/3174')}[nf]
        v.ensure('RGI', v.eq(b*a**ex, 1 + J*a/(4*v.pi), tol=1e-9))


@harness('C15', targets=[P + 'amplitude.M12_d_SM', P + 'amplitude.M12_u_SM', P + 'amplitude.G12_d', P + 'amplitude.G12_u', P + 'amplitude.G12_d_SM',
                         P + 'amplitude.G12_u_SM'], uses=[P + 'wilsoncoefficient.cvll_d', P + 'amplitude.matrixelements', 'flavio.physics.ckm.get_ckm',
                                                           'wilson.util.qcd', P + 'common.bag_msbar2rgi'])
def sm_amplitudes(v):
    """dispersive and absorptive SM amplitudes: coefficient times RGI matrix element; Gamma12 = M12 (c + a xi_u/xi_t) for B mesons;
    quadratic forms in the CKM factors for D"""
    par, wc = v.par(), wcs(v)
    if v.sym:
        ckm_contract(v)
        running_contract(v)
        v.contract(P + 'wilsoncoefficient:cvll_d', lambda par, meson: v.ufc('cvll', meson))
        v.contract(P + 'common:bag_msbar2rgi', lambda a, meson: v.uf('rgi', a, meson, pos=True))
    from flavio.physics.running import running
    V = flavio.physics.ckm.get_ckm(par)
    d = {'b': 2, 's': 1, 'd': 0}
    for M in ('B0', 'Bs', 'K0'):
        a = running.get_alpha(par, flavio.config['renormalization scale'][M+' mixing'])['alpha_s']
        m = -wcoef.cvll_d(par, M)*amplitude.matrixelements(par, M)['CVLL']*common.bag_msbar2rgi(a, M)
        v.ensure('M12 '+M, v.eq(amplitude.M12_d_SM(par, M), m))
        if M == 'K0':
            continue
        q = common.meson_quark[M]
        xu, xt = [V[i, d[q[0]]]*V[i, d[q[1]]].conjugate() for i in (0, 2)]
        v.assume_(xt != 0)
        c, k = par['Gamma12_%s_c' % M], par['Gamma12_%s_a' % M]
        v.ensure('Gamma12 '+M, v.eq(10000*amplitude.G12_d(par, wc, M)*xt, m*(c*xt + k*xu), scale=abs(m)*100*abs(xt)))
    xb, xs = [V[0, i]*V[1, i].conjugate() for i in (2, 1)]
    for n, f in (('M12', lambda: amplitude.M12_u_SM(par)), ('Gamma12', lambda: amplitude.G12_u(par, wc))):
        p = [par['%s_D a_%s' % (n, x)] for x in ('bb', 'bs', 'ss')]
        ref = (p[0]*xb*xb + p[1]*xb*xs + p[2]*xs*xs)/v.num('1519267515435.317')
        v.ensure(n + ' D0', v.eq(f(), ref, scale=abs(ref) + 1e-15))
