"""C20 dipole moments, neutrino trident production and beta decays from the documented operators"""
from vf.api import harness
from vf import phys
import flavio
from flavio.classes import Observable
from flavio.config import config
from flavio.physics.running import running
from flavio.physics.edms import common as edm
from flavio.physics.betadecays import common as bcom, ft
from flavio.physics import ckm

E_ = 'flavio.physics.edms.'
B_ = 'flavio.physics.betadecays.'
NF = {'WET': 5, 'WET-4': 4, 'WET-3': 3}


def sq(z):
    return z.real**2 + z.imag**2


def re(a, b):
    """Re(a b*)"""
    return a.real*b.real + a.imag*b.imag


def im(a, b):
    """Im(a b*)"""
    return a.imag*b.real - a.real*b.imag


def setup(v, **k):
    phys.masses_contract(v)
    phys.ckm_contract(v)
    return v.par(), phys.wcs(v, **k)


def pred(name, par, wc, **k):
    return Observable[name].prediction_par(par, wc, **k)


def gf2(v, par):
    """4 GF/sqrt2"""
    return 4*par['GF']/v.fsqrt(2)


def mass(par, f, scale, nf):
    return {'u': running.get_mu, 'd': running.get_md, 's': running.get_ms}[f](par, scale, nf_out=nf) if f in 'uds' else par['m_' + f]


def d_f(v, par, C, f, scale, nf):
    """twice the imaginary part of the coefficient of fbar_L sigma f_R F"""
    e = v.fsqrt(4*v.pi*running.get_alpha(par, scale, nf_out=nf)['alpha_e'])
    return 2*gf2(v, par)*e/(16*v.pi**2)*mass(par, f, scale, nf)*C['C7_' + f + f].imag


# ------------------------------------------------------------------ electric dipole moments
@harness('C20', targets=[E_ + 'common.edm_f', E_ + 'common.cedm_f', E_ + 'common.get_m'], max_paths=40)
def fermion_dipoles(v):
    """EDM and chromo-EDM of every fermion: the mass of that very fermion, imaginary part of its own dipole coefficient"""
    eft = v.choice('eft', ['WET-3', 'WET-4', 'WET'])
    f = v.choice('fermion', ['e', 'mu', 'u', 'd', 's'] + (['tau'] if eft != 'WET-3' else []))
    par, wc = setup(v)
    C = wc.get_wc('dF=0', 2, par, eft=eft)
    v.ensure('edm', v.eq(edm.edm_f(par, C, f, 2, eft), d_f(v, par, C, f, 2, NF[eft])))
    if f in 'uds':
        v.ensure('cedm', v.eq(edm.cedm_f(par, C, f, 2, eft), 2*gf2(v, par)/(16*v.pi**2)*mass(par, f, 2, NF[eft])*C['C8_' + f + f].imag))


@harness('C20', targets=[E_ + 'neutronedm.nedm', E_ + 'neutronedm.nedm_wceff'], max_paths=40)
def neutron_edm(v):
    """d_n: tensor charges with isospin-rotated quarks, chromo-EDMs and the Weinberg operator"""
    par, wc = setup(v)
    C = wc.get_wc('dF=0', 2, par, eft='WET-3')
    q = {f: d_f(v, par, C, f, 2, 3) for f in 'uds'}
    c = {f: edm.cedm_f(par, C, f, 2, 'WET-3') for f in 'uds'}
    d = par['gT_u']*q['d'] + par['gT_d']*q['u'] + par['gT_s']*q['s']
    d = d + sum(par['nEDM ~rho_' + f]*c[f] for f in 'uds') + par['nEDM beta_G']*C['CGtilde']
    got = pred('d_n', par, wc)
    v.ensure('magnitude', v.eq(got**2, d**2))
    v.ensure('sign', v.ge(got, 0))


@harness('C20', targets=[E_ + 'neutronedm.nedm', E_ + 'paraedm.omega_para', E_ + 'paraedm.d_para'], max_paths=40)
def no_cp_violation(v):
    """electric dipole moments and P,T-odd shifts vanish identically without new physics"""
    par = setup(v)[0]
    n = v.choice('observable', ['d_n', 'd_Tl', 'omega_YbF', 'omega_HfF', 'omega_ThO'])
    v.ensure('vanishes', v.eq(pred(n, par, phys.smwc(v)), 0))


NUCLEI = {'d_Tl': (81, 124), 'omega_YbF': (70, 104), 'omega_HfF': (72, 108), 'omega_ThO': (90, 142)}


@harness('C20', targets=[E_ + 'paraedm.omega_para', E_ + 'paraedm.d_para', E_ + 'slcouplings.CS', E_ + 'common.proton_charges'], max_paths=40)
def paramagnetic(v):
    """electron EDM plus the scalar electron-nucleon coupling: -GF/sqrt2 C_S (ebar i g5 e)(Nbar N), averaged over the nucleons of the heavy nucleus"""
    n = v.choice('observable', list(NUCLEI))
    par, wc = setup(v)
    C = wc.get_wc('dF=0', 2, par, eft='WET-3')
    Z, N = NUCLEI[n]
    name = n.split('_')[1]
    # (ebar_L e_R)(qbar q)/2 + h.c. -> Im C/2 ebar i g5 e qbar q
    D = {q: -2*gf2(v, par)*C['CSRR_ee' + 2*q].imag/2/gf2(v, par)*2 - 2*C['CSRL_ee' + 2*q].imag for q in 'ud'}
    mu, md = (mass(par, q, 2, 3) for q in 'ud')
    plus, minus = par['sigma_piN']*2/(mu + md), par['gS_u-d']       # <uu + dd>, <uu - dd> in the proton
    sc = {'u': (plus + minus*v.num('%d/%d' % (Z - N, Z + N)))/2, 'd': (plus - minus*v.num('%d/%d' % (Z - N, Z + N)))/2}
    cs = sum(D[q]*sc[q] for q in 'ud')
    ref = par['alpha_de(%s)' % name]*d_f(v, par, C, 'e', 2, 3) + par['alpha_CS(%s)' % name]*cs
    v.ensure('shift', v.eq(pred(n, par, wc), ref))
    # both effects come from the same relativistic enhancement: equal relative sign in all paramagnetic systems
    p0 = flavio.default_parameters.get_central_all()
    v.ensure('relative sign of the atomic coefficients', p0['alpha_de(%s)' % name]*p0['alpha_CS(%s)' % name] > 0)


@harness('C20', targets=[E_ + 'common.proton_charges'])
def nucleon_charges(v):
    """isovector charges; the pseudoscalar charge from partial conservation of the axial current, the scalar charges from the sigma terms"""
    par, _ = setup(v)
    s = v.real('scale', pos=True, dom=(1.9, 2.1))
    g = edm.proton_charges(par, s)
    mu, md, ms = (mass(par, q, s, 3) for q in 'uds')
    v.ensure('vector', v.eq(g['gV_u-d'], 1))
    v.ensure('axial', v.eq(g['gA_u-d'], par['g_A']))
    v.ensure('pseudoscalar', v.eq(g['gP_u-d']*(mu + md), par['g_A']*(par['m_p'] + par['m_n'])))
    v.ensure('scalar', v.eq(g['gS_u-d'], par['gS_u-d']))
    v.ensure('isoscalar', v.eq(g['gS_u+d']*(mu + md), 2*par['sigma_piN']))
    v.ensure('strange', v.eq(g['gS_s']*ms, par['sigma_s']))
    v.ensure('tensor', v.and_(v.eq(g['gT_u-d'] + g['gT_u+d'], 2*par['gT_u']), v.eq(g['gT_u+d'] - g['gT_u-d'], 2*par['gT_d'])))


# ------------------------------------------------------------------ magnetic moments, tridents
@harness('C20', targets=['flavio.physics.mdms.al.al', 'flavio.physics.mdms.al.ae', 'flavio.physics.mdms.al.amu', 'flavio.physics.mdms.al.atau'], max_paths=40)
def magnetic_moments(v):
    """a_l = SM value plus 4 m_l/e times the real part of the coefficient of lbar_L sigma l_R F"""
    l = v.choice('lepton', ['e', 'mu', 'tau'])
    par, wc = setup(v)
    scale = config['renormalization scale'][{'mu': 'mudecays'}.get(l, l + ' g-2')]
    C = wc.get_wc('dF=0', scale, par, eft='WET' if l == 'tau' else 'WET-3')['C7_' + l + l]
    p_e = gf2(v, par)/(16*v.pi**2)*par['m_' + l]
    v.ensure('a_l', v.eq(pred('a_' + l, par, wc), par['a_%s SM' % l] + 4*par['m_' + l]*p_e*C.real))
    v.ensure('no new physics', v.eq(pred('a_' + l, par, phys.smwc(v)), par['a_%s SM' % l]))


@harness('C20', targets=['flavio.physics.neutrinos.trident.R_trident'], max_paths=40)
def tridents(v):
    """vector and axial couplings of the muon to (nubar_i nu_mu) summed over the final neutrino flavour, normalised to the SM W and Z exchange"""
    par, wc = setup(v)
    C = wc.get_wc('ffnunu', 1, par, eft='WET-3')
    s2 = par['s2w']
    # coefficients of (nubar_L g nu_L)(mubar g mu), (nubar_L g nu_L)(mubar g g5 mu) in 4GF/sqrt2
    sm = -(v.num('1/4') + s2), v.num('1/4')
    tot = 0
    for i in ('numunumu', 'nuenumu', 'numunutau'):
        L, R = C['CVLL_%smumu' % i], C['CVLR_%smumu' % i]
        V, A = (R + L)/2, (R - L)/2
        if i == 'numunumu':
            V, A = V + sm[0], A + sm[1]
        tot = tot + sq(V) + sq(A)
    v.ensure('ratio', v.eq(pred('R_trident', par, wc), tot/(sm[0]**2 + sm[1]**2)))
    v.ensure('standard model', v.eq(pred('R_trident', par, phys.smwc(v)), 1))


# ------------------------------------------------------------------ beta decays
@harness('C20', targets=[B_ + 'common.wc_eff'], max_paths=40)
def lee_yang(v):
    """nucleon couplings of H = C_V (p n)(e nu) + ... from the quark operators with nucleon charges"""
    nu = v.choice('neutrino', ['e', 'mu'])
    par, wc = setup(v)
    from flavio.physics.bdecays import wilsoncoefficients as w
    if v.sym:
        v.contract(w.get_CVLSM, lambda par, scale, nf: v.uf('CVLSM', scale, pos=True, dom=(1.0, 1.02)))
    scale = config['renormalization scale']['betadecay']
    v.assume_(v.gt(1 + par['DeltaRV'], 0))
    C = bcom.wc_eff(par, wc, scale, nu)
    W = wc.get_wc('duenu' + nu, scale, par, nf_out=3)
    g = edm.proton_charges(par, scale)
    w_ = lambda x: W['%s_duenu%s' % (x, nu)]
    r = v.fsqrt(1 + par['DeltaRV'])
    sm = w.get_CVLSM(par, scale, 3)
    VL = r*(w_('CVL')/sm + (1 if nu == 'e' else 0))
    # (ubar g P_L d)(ebar g P_L nu) = 1/4 (ubar g (1-g5) d)(ebar g (1-g5) nu), ...; 4 GF/sqrt2 -> GF/sqrt2 = pre
    v.ensure('V', v.eq(C['V'], VL + w_('CVR')))
    v.ensure('A', v.eq(C['A'], -par['g_A']*(VL - w_('CVR'))))
    v.ensure('S', v.eq(C['S'], par['gS_u-d']*(w_('CSL') + w_('CSR'))))
    v.ensure('P', v.eq(C['P'], g['gP_u-d']*(w_('CSL') - w_('CSR'))))
    v.ensure('T', v.eq(C['T'], 4*(par['gT_u'] - par['gT_d'])*w_('CT')))


def couplings(v):
    return {k: v.cplx('C' + k) for k in 'VAST'}


def neutron_kin(v):
    """electron along z: energies E -+ p = b^2, a^2"""
    a, b = v.real('a', pos=True, dom=(1., 1.5)), v.real('b', pos=True, dom=(0.1, 0.9))
    v.assume_(v.gt(a, b))
    return a, b, (a**2 + b**2)/2, (a**2 - b**2)/2, a*b


def pauli(v, u, w):
    """(u^dagger w, u^dagger sigma w)"""
    c = [x.conjugate() if hasattr(x, 'conjugate') else x for x in u]
    i = v.i()
    return c[0]*w[0] + c[1]*w[1], (c[0]*w[1] + c[1]*w[0], i*(c[1]*w[0] - c[0]*w[1]), c[0]*w[0] - c[1]*w[1])


def rate(v, C, eL, eR, nu, neutron):
    """squared matrix element of the Lee-Yang Hamiltonian (C' = C: left-handed neutrinos) between static nucleons, summed over the proton spin"""
    l0, l = pauli(v, eL, nu)
    r0, r = pauli(v, eR, nu)
    s = C['V']*l0 + C['S']*r0
    t = [C['A']*x + C['T']*y for x, y in zip(l, r)]
    i = v.i()
    n = neutron
    out = [s*n[0] + t[2]*n[0] + (t[0] - i*t[1])*n[1], s*n[1] + (t[0] + i*t[1])*n[0] - t[2]*n[1]]
    return sq(out[0]) + sq(out[1])


def direction(v, name):
    """unit vector with rational components, spinors along and opposite to it (norm 1)"""
    x, y = v.real(name + 'x'), v.real(name + 'y')
    n = 1 + x**2 + y**2
    i = v.i()
    return (2*x/n, 2*y/n, (1 - x**2 - y**2)/n), ((1, x + i*y), (-(x - i*y), 1)), n


@harness('C20', targets=[B_ + 'ft.xi', B_ + 'ft.a_xi', B_ + 'ft.b_xi', B_ + 'ft.A_xi', B_ + 'ft.B_xi', B_ + 'ft.D_xi'], max_paths=20, time_limit=400)
def neutron_distribution(v):
    """the electron-neutrino distribution of polarised neutron decay, built from xi, a, b, A, B and D, is the squared matrix element
    of the general Lorentz-invariant Hamiltonian - for all complex couplings, energies and directions; in particular never negative"""
    C = couplings(v)
    a, b, E, p, m = neutron_kin(v)
    k, (_, eta), nk = direction(v, 'k')
    J, (chi, _), nj = direction(v, 'J')
    MGT = v.fsqrt(3)
    h = v.num('1/2')
    tot = sum(rate(v, C, eL, eR, eta, chi) for eL, eR in (((b, 0), (a, 0)), ((0, a), (0, b))))/(nk*nj)
    xi = ft.xi(C, 1, MGT)
    cross = p*(-k[1]*J[0] + k[0]*J[1])/E          # J.(p x k), p along z
    ref = xi + ft.a_xi(C, 1, MGT)*p*k[2]/E + ft.b_xi(C, 1, MGT, 0, 0, 1)*m/E
    ref = ref + ft.A_xi(C, 1, MGT, h, h, 1)*J[2]*p/E
    ref = ref + ft.B_xi(C, 1, MGT, h, h, m/E, 1)*sum(x*y for x, y in zip(J, k)) + ft.D_xi(C, 1, MGT, h, h)*cross
    v.ensure('distribution', v.eq(E*ref/2, tot))
    v.ensure('non-negative', v.ge(tot, 0))


@harness('C20', targets=[B_ + 'ft.R_xi'], max_paths=20)
def neutron_transverse_polarisation(v):
    """R is the correlation of the transverse electron polarisation with J x p"""
    C = couplings(v)
    a, b, E, p, m = neutron_kin(v)
    i, h = v.i(), v.num('1/2')
    tot = 0
    for s in (1, -1):
        for j in (1, -1):
            e = (1, s)                       # electron spin along +-x, norm 2
            n = (1, j*i)                     # neutron along +-y, norm 2
            eL, eR = (b*e[0], a*e[1]), (a*e[0], b*e[1])
            tot = tot + s*j*sum(rate(v, C, eL, eR, nu, n) for nu in ((1, 0), (0, 1)))/4/2
    # J x p = (J_y p_z, ...): s.(J x p)/E = s j p/E
    v.ensure('R', v.eq(ft.R_xi(C, 1, v.fsqrt(3), h, h, 1)*p, tot))


@harness('C20', targets=[B_ + 'ft.xi', B_ + 'ft.a', B_ + 'ft.b', B_ + 'ft.A', B_ + 'ft.B', B_ + 'ft.D', B_ + 'ft.R', B_ + 'ft.dl', B_ + 'ft.la'], max_paths=40)
def correlation_coefficients(v):
    """the coefficients are the correlations divided by the rate; |a|, |b| <= 1; charge conjugation flips b, A, B and R of Gamow-Teller type only"""
    C = couplings(v)
    MF, MGT = v.real('MF', nonneg=True, dom=(0.5, 2)), v.real('MGT', nonneg=True, dom=(0.5, 2))
    al = v.real('alpha', pos=True, dom=(0.005, 0.01))
    Z = v.real('Z', nonneg=True, dom=(0, 40))
    v.assume_(v.gt(1, al**2*Z**2))
    v.assume_(v.gt(1, al*Z))
    J = v.choice('J', ['1/2', '1', '2'])
    Jf = v.num(J) + v.choice('dJ', [0, 1, -1])
    J = v.num(J)
    xi = ft.xi(C, MF, MGT)
    F, G = MF**2*(sq(C['V']) + sq(C['S'])), MGT**2*(sq(C['A']) + sq(C['T']))
    v.ensure('rate', v.eq(xi, 2*F + 2*G))
    v.assume_(v.gt(F + G, 0))
    v.assume_(v.gt(xi, 0))
    x = {'a': (ft.a(C, MF, MGT), ft.a_xi(C, MF, MGT))}
    y = v.real('me_E', pos=True, dom=(0.1, 0.9))
    for s in (1, -1):
        x['b%d' % s] = ft.b(C, MF, MGT, al, Z, s), ft.b_xi(C, MF, MGT, al, Z, s)
        x['A%d' % s] = ft.A(C, MF, MGT, J, Jf, s), ft.A_xi(C, MF, MGT, J, Jf, s)
        x['B%d' % s] = ft.B(C, MF, MGT, J, Jf, y, s), ft.B_xi(C, MF, MGT, J, Jf, y, s)
        x['R%d' % s] = ft.R(C, MF, MGT, J, Jf, s), ft.R_xi(C, MF, MGT, J, Jf, s)
    x['D'] = ft.D(C, MF, MGT, J, Jf), ft.D_xi(C, MF, MGT, J, Jf)
    for n, (r, num) in x.items():
        v.ensure(n, v.eq(r*xi, num))
    q = lambda *t: 2*sum(t)
    v.ensure('a lower', v.and_(v.eq(xi - x['a'][1], q(2*MF**2*sq(C['S']), MGT**2*(4*sq(C['A']) + 2*sq(C['T']))/3)), True))
    v.ensure('a upper', v.eq(xi + x['a'][1], q(2*MF**2*sq(C['V']), MGT**2*(2*sq(C['A']) + 4*sq(C['T']))/3)))
    v.ensure('b flips for positrons', v.eq(x['b1'][1], -x['b-1'][1]))
    # |b| <= gamma: xi -+ b xi/gamma are sums of squares
    g = v.fsqrt(1 - al**2*Z**2)
    for s in (1, -1):
        v.ensure('b bound %d' % s, v.eq(xi + s*x['b1'][1]/g, 2*(MF**2*(sq(C['V'] + s*C['S'])) + MGT**2*sq(C['A'] + s*C['T']))))


@harness('C20', targets=[B_ + 'ft.Ft_superallowed', B_ + 'ft.Neutron_tau', B_ + 'ft.Neutron_corr', B_ + 'ft.K'],
         uses=[B_ + 'common.wc_eff', B_ + 'ft.xi', B_ + 'ft.b', B_ + 'ft.a', B_ + 'ft.A', B_ + 'ft.B', B_ + 'ft.D', B_ + 'ft.R'], max_paths=80, time_limit=400)
def beta_observables(v):
    """Ft values, neutron lifetime and measured correlations from the couplings: Fermi matrix element sqrt 2, Fierz term, Fermi constant corrected for new physics"""
    obs = ['Ft(%s)' % A for A in ft.nuclei_superallowed] + ['tau_n', 'a_n', 'A_n', 'D_n', 'R_n', 'atilde_n', 'b_n', 'Atilde_n', 'B_n', 'Btilde_n', 'lambdaAB_n']
    n = v.choice('observable', obs)
    par, wc = setup(v)
    from flavio.physics.bdecays import wilsoncoefficients as w
    from flavio.physics.taudecays import taulnunu
    if v.sym:
        v.contract(w.get_CVLSM, lambda par, scale, nf: v.uf('CVLSM', scale, pos=True, dom=(1.0, 1.02)))
        v.contract(taulnunu.GFeff, lambda wc_obj, par: v.uf('GFeff', par['GF'], pos=True, dom=(1.1e-5, 1.2e-5)))
    v.assume_(v.gt(1 + par['DeltaRV'], 0))
    v.assume_(v.gt(1/par['alpha_e']**2, 40**2))
    v.assume_(v.gt(1, par['alpha_e']*40))
    v.assume_(v.gt(1, par['alpha_e']**2*1600))
    C = bcom.wc_eff(par, wc, config['renormalization scale']['betadecay'], 'e')
    for z in C.values():
        if v.sym:
            v.assume_(v.gt(z.real, 0))
    Vud, G = ckm.get_ckm(par)[0, 0], taulnunu.GFeff(wc, par)
    Kf = 2*v.pi**3*v.flog(2)/par['m_e']**5
    VV, SS, AA, TT = (sq(C[x]) for x in 'VSAT')
    if n.startswith('Ft'):
        A = n[3:-1]
        d = ft.nuclei_superallowed[A]
        Z = d['Z']
        dC = 1 + par['delta_deltaRp_Z2']*Z**2 + par['delta_deltaNS,A'] + par['delta_deltaNS,E_QEC']*ft.Q_EC[A]
        x = v.num(str(d['<me/E>']))
        v.assume_(v.gt(Z and VV + SS - 2*re(C['V'], C['S'])*v.fsqrt(1 - par['alpha_e']**2*Z**2)*x, 0))
        # positron emission, |M_F|^2 = 2
        tot = VV + SS - 2*v.fsqrt(1 - par['alpha_e']**2*Z**2)*re(C['V'], C['S'])*x
        v.ensure('Ft', v.eq(pred(n, par, wc), dC*Kf/(2*G**2*sq(Vud)*tot)))
        return
    y = v.real('me_E', pos=True, dom=(0.3, 0.9))
    tot = VV + SS + 3*(AA + TT)
    fierz = 2*(re(C['V'], C['S']) + 3*re(C['A'], C['T']))
    v.assume_(v.gt(tot + fierz*y, 0))
    kw = {} if n in ('a_n', 'A_n', 'D_n', 'R_n') else {'me_E': y}
    got = pred(n, par, wc, **kw)
    if n == 'tau_n':
        v.ensure('lifetime', v.eq(got, Kf/(G**2*sq(Vud)*(tot + fierz*y))/v.flog(2)/par['f_n']/(1 + par['deltaRp_n'])))
        return
    ai = VV - SS - AA + TT
    Ai = 2*(TT - AA) + 2*(re(C['S'], C['T']) - re(C['V'], C['A']))
    Bi = 2*(2*y*re(C['T'], C['A']) + TT + AA) - 2*(re(C['S'], C['T']) + re(C['V'], C['A']) + y*(re(C['S'], C['A']) + re(C['V'], C['T'])))
    Di = 2*(im(C['S'], C['T']) - im(C['V'], C['A']))
    Ri = 4*im(C['T'], C['A']) + 2*(im(C['S'], C['A']) - im(C['V'], C['T']))
    num = {'a': ai, 'A': Ai, 'B': Bi, 'D': Di, 'R': Ri, 'b': fierz}
    k = n.replace('_n', '')
    if k == 'lambdaAB':
        v.assume_(v.gt(sq(Ai + Bi), 0))
        v.ensure('ratio', v.eq(got*(Ai + Bi), Ai - Bi))
    elif k.endswith('tilde'):
        v.ensure('energy averaged', v.eq(got*(tot + fierz*y), num[k[0]]))
    else:
        v.ensure('coefficient', v.eq(got*tot, num[k]))
