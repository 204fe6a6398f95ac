"""C13 angular distributions of B -> P l1 l2 and B -> V l1 l2: squared moduli of helicity amplitudes"""
from vf.api import harness
from flavio.physics.bdecays import angular
from flavio.physics.common import lambda_K

A = 'flavio.physics.bdecays.angular.'
KEYS = ['1s', '1c', '2s', '2c', '6s', '6c', 3, 4, 5, 7, 8, 9]
HEL = {1: 'pl', 0: '0', -1: 'mi'}


def lep_kin(v, pre=''):
    """lepton momenta in the dilepton rest frame: any masses m1, m2 and any q2 above threshold"""
    p, u1, u2 = (v.real(pre+n, dom=d, pos=True) for n, d in (('p', (0.3, 1.0)), ('u1', (1.01, 1.6)), ('u2', (1.01, 1.6))))
    w1, w2 = p/u1, p/u2
    E1, E2 = (u1**2 + w1**2)/2, (u2**2 + w2**2)/2
    m1, m2 = (u1**2 - w1**2)/2, (u2**2 - w2**2)/2
    v.assume_(m1 >= 0)
    v.assume_(m2 >= 0)
    return (E1 + E2)**2, m1, m2, (u1*u2, w1*w2, u1*w2, w1*u2), p*2*(E1 + E2)


def had_kin(v, q2, names=('mB', 'mP')):
    """hadron masses with q2 below the end point"""
    mB, m = v.real(names[0], dom=(4.5, 5.5), pos=True), v.real(names[1], dom=(0.1, 1.0), pos=True)
    la = mB**4 + m**4 + q2**2 - 2*(mB**2*m**2 + mB**2*q2 + m**2*q2)
    v.assume_(la > 0)
    v.assume_(q2 < (mB - m)**2)
    return mB, m, v.fsqrt(la)


def norm(v, q2, mB, sla, slg):
    return sla*slg/(512*v.pi**3*mB**3*q2)


def sq(z):
    return z.real**2 + z.imag**2


# ------------------------------------------------------------------ B -> P
@harness('C13', targets=[A+'angularcoeffs_general_p', A+'angularcoeffs_general_Gbasis_p'], max_paths=20, time_limit=400)
def p_square(v):
    """a + b x + c x^2 (x = cos theta) is, for every amplitude, the sum over lepton helicities of |amplitude|^2:
    sin^2(theta)/2-type pieces for opposite, cos-type pieces interfering with the (pseudo)scalar for equal helicities"""
    q2, m1, m2, (a, b, c, d), slg = lep_kin(v)
    mB, mP, sla = had_kin(v, q2)
    h = {k: v.cplx('h'+k) for k in ('V', 'A', 'S', 'P', 'T', 'Tt')}
    J = angular.angularcoeffs_general_p(h, q2, mB, mP, 0, 0, m1, m2)
    n = norm(v, q2, mB, sla, slg)
    I, r2 = v.i(), v.fsqrt(2)
    V, A_ = (a + b)*h['V'] + 2*I*(a - b)*h['Tt'], (c + d)*h['A'] + I*r2*(c - d)*h['T']
    M1, M2 = (a - b)*h['V'] + 2*I*(a + b)*h['Tt'], (c - d)*h['A'] + I*r2*(c + d)*h['T']
    s1, s2 = (c + d)*h['S'], (a + b)*h['P']
    flat = 2*(sq(V) + sq(A_))
    v.ensure('constant', v.eq(J['a'], n*(flat + 2*(sq(s1) + sq(s2)))))
    v.ensure('quadratic', v.eq(J['c'], n*(2*(sq(M1) + sq(M2)) - flat)))
    inter = sum(x.real*y.real + x.imag*y.imag for x, y in ((M1, s1), (M2, s2)))
    v.ensure('linear', v.eq(J['b'], -4*n*inter))


# ------------------------------------------------------------------ B -> V
def wigner(v, c, s):
    r2 = v.fsqrt(2)
    return {(1, 1): (1+c)/2, (1, 0): -s/r2, (1, -1): (1-c)/2, (0, 1): s/r2, (0, 0): c, (0, -1): -s/r2, (-1, 1): (1-c)/2, (-1, 0): s/r2,
            (-1, -1): (1+c)/2}


# twelve angular configurations (cos, sin of theta_l, theta_V, phi) at which the twelve angular functions are linearly independent
ANG = [(3, 4, 5, 4, 3, 5, 1, 0, 1), (4, 3, 5, 5, 12, 13, 3, 4, 5), (-3, 4, 5, 3, 4, 5, 5, 12, 13), (5, 12, 13, -3, 4, 5, -4, 3, 5),
       (0, 1, 1, 3, 4, 5, 0, 1, 1), (1, 0, 1, 4, 3, 5, 0, 1, 1), (1, 0, 1, 0, 1, 1, 1, 0, 1), (-1, 0, 1, 3, 4, 5, 1, 0, 1),
       (-12, 5, 13, 12, 5, 13, 4, -3, 5), (0, 1, 1, 0, 1, 1, 3, 4, 5), (3, 4, 5, 0, 1, 1, -3, -4, 5), (-4, 3, 5, 12, 5, 13, -5, -12, 13)]


def angles(v, k):
    cl, sl, nl, ck, sk, nk, cp, sp, np_ = ANG[k]
    q = lambda a, b: v.num('%d/%d' % (a, b))
    return q(cl, nl), q(sl, nl), q(ck, nk), q(sk, nk), q(cp, np_), q(sp, np_)


def dist_v(J, ang):
    cl, sl, ck, sk, cp, sp = ang
    s2, c2 = sk**2, ck**2
    return (J['1s']*s2 + J['1c']*c2 + (J['2s']*s2 + J['2c']*c2)*(2*cl**2 - 1) + J[3]*s2*sl**2*(2*cp**2 - 1)
            + J[4]*(2*sk*ck)*(2*sl*cl)*cp + J[5]*(2*sk*ck)*sl*cp + (J['6s']*s2 + J['6c']*c2)*cl + J[7]*(2*sk*ck)*sl*sp
            + J[8]*(2*sk*ck)*(2*sl*cl)*sp + J[9]*s2*sl**2*(2*sp*cp))


def amps_v(v, pre='H', keys=('V', 'A', 'T', 'Tt'), sp=True):
    H = {(l, t): v.cplx('%s%s%s' % (pre, l, t)) for l in HEL.values() for t in keys}
    for l in HEL.values():
        for t in ('V', 'A', 'T', 'Tt'):
            H.setdefault((l, t), 0*v.i())
    for x in 'SP':
        H[x] = v.cplx(pre+x) if sp else 0*v.i()
    return H


def square_v(v, H, kin, ang):
    a, b, c, d = kin
    cl, sl, ck, sk, cp, sp = ang
    I, r2 = v.i(), v.fsqrt(2)
    dl, dk = wigner(v, cl, sl), wigner(v, ck, sk)
    e = {1: cp + I*sp, 0: 1, -1: cp - I*sp}
    tot = 0
    M1, M2 = (c + d)*H['S']*ck, (a + b)*H['P']*ck
    Mp = Mm = 0
    for l, n in HEL.items():
        V, X, T, Y = H[n, 'V'], H[n, 'A'], H[n, 'T'], H[n, 'Tt']
        f = e[l]*dk[l, 0]
        x, y = (a + b)*V + 2*I*(a - b)*Y, (c + d)*X + I*r2*(c - d)*T
        Mp = Mp + (x - y)*f*dl[l, 1]
        Mm = Mm + (x + y)*f*dl[l, -1]
        M1 = M1 + ((a - b)*V + 2*I*(a + b)*Y)*f*dl[l, 0]
        M2 = M2 + ((c - d)*X + I*r2*(c + d)*T)*f*dl[l, 0]
    for M in (Mp, Mm, M1, M2):
        tot = tot + sq(M)
    return tot


@harness('C13', targets=[A+'angularcoeffs_general_v', A+'angularcoeffs_general_Gbasis_v', A+'G_to_g'], max_paths=40, time_limit=600, total=700)
def v_square(v):
    """the B -> V l1 l2 distribution in three angles is 16/3 sum over lepton helicities |sum_lambda H_lambda d^1(theta_l) d^1(theta_V) e^{i lambda phi}|^2
    for arbitrary vector, axial, (pseudo)scalar and tensor amplitudes and arbitrary lepton masses"""
    q2, m1, m2, kin, slg = lep_kin(v)
    mB, mV, sla = had_kin(v, q2, ('mB', 'mV'))
    H = amps_v(v)
    J = angular.angularcoeffs_general_v(H, q2, mB, mV, 0, 0, m1, m2)
    n = norm(v, q2, mB, sla, slg)
    for k in range(12):
        ang = angles(v, k)
        v.ensure('configuration %d' % k, v.eq(3*dist_v(J, ang), 16*n*square_v(v, H, kin, ang)))


@harness('C13', targets=[A+'angularcoeffs_general_v', A+'G_to_g'], max_paths=4)
def v_configurations(v):
    """the twelve configurations determine the distribution: their angular functions are linearly independent"""
    from fractions import Fraction
    rows = []
    for k in range(12):
        cl, sl, nl, ck, sk, nk, cp, sp, np_ = ANG[k]
        ang = tuple(Fraction(x, n) for x, n in ((cl, nl), (sl, nl), (ck, nk), (sk, nk), (cp, np_), (sp, np_)))
        rows.append([dist_v({**dict.fromkeys(KEYS, Fraction(0)), j: Fraction(1)}, ang) for j in KEYS])
    rank, m = 0, [r[:] for r in rows]
    for c in range(12):
        pv = next((r for r in range(rank, 12) if m[r][c]), None)
        if pv is None:
            continue
        m[rank], m[pv] = m[pv], m[rank]
        for r in range(12):
            if r != rank and m[r][c]:
                f = m[r][c]/m[rank][c]
                m[r] = [x - f*y for x, y in zip(m[r], m[rank])]
        rank += 1
    v.ensure('rank 12', rank == 12)
    # linear: J = 0 for vanishing amplitudes
    q2, m1, m2, kin, slg = lep_kin(v)
    mB, mV, sla = had_kin(v, q2, ('mB', 'mV'))
    H = {k: 0j for k in amps_v(v)}
    J = angular.angularcoeffs_general_v(H, q2, mB, mV, 0, 0, m1, m2)
    for k in KEYS:
        v.ensure('zero %s' % k, v.eq(J[k], 0, scale=1))


# ------------------------------------------------------------------ interference with the CP-conjugate amplitude (B_s tagging)
@harness('C13', targets=[A+'angularcoeffs_h_v', A+'angularcoeffs_h_Gbasis_v', A+'G_to_g'], uses=[], max_paths=40, time_limit=800, total=880, z3_ms=2000)
def h_polarisation(v):
    """the mixing-induced coefficients are the interference term of the squared amplitude:
    h(phi, H, Ht) = J(H + e^{i phi} Ht) - J(H) - J(Ht)"""
    q2, m1, m2, kin, slg = lep_kin(v)
    mB, mV, sla = had_kin(v, q2, ('mB', 'mV'))
    names = [(l, t) for l in HEL.values() for t in ('V', 'A', 'T', 'Tt')] + ['S', 'P']
    H = {k: v.cplx('H%s' % ''.join(k)) for k in names}
    T = {k: v.cplx('t%s' % ''.join(k)) for k in names}
    phi = v.real('phi', dom=(-3.0, 3.0))
    e = v.fcos(phi) + v.i()*v.fsin(phi)
    args = (q2, mB, mV, 0, 0, m1, m2)
    h = angular.angularcoeffs_h_v(phi, H, T, *args)
    J, Jt = angular.angularcoeffs_general_v(H, *args), angular.angularcoeffs_general_v(T, *args)
    Js = angular.angularcoeffs_general_v({k: H[k] + e*T[k] for k in names}, *args)
    for k in KEYS:
        v.ensure('h %s' % k, v.eq(h[k], Js[k] - J[k] - Jt[k]))


# ------------------------------------------------------------------ rates: integrals of the squared amplitudes
@harness('C13', targets=['flavio.physics.bdecays.bpll.dGdq2', 'flavio.physics.bdecays.bplnu.dGdq2', 'flavio.physics.bdecays.bpll_lfv.dGdq2',
                         'flavio.physics.bdecays.bpll.AFB_num', 'flavio.physics.bdecays.bpll.FH_num', A+'angularcoeffs_general_p'], max_paths=20, time_limit=400)
def p_rate(v):
    """d Gamma/dq2 is the integral over the angle and a sum of squares; |A_FB| and F_H are bounded by it"""
    from flavio.physics.bdecays import bpll, bplnu, bpll_lfv
    q2, m1, m2, (a, b, c, d), slg = lep_kin(v)
    mB, mP, sla = had_kin(v, q2)
    h = {k: v.cplx('h'+k) for k in ('V', 'A', 'S', 'P', 'T', 'Tt')}
    J = angular.angularcoeffs_general_p(h, q2, mB, mP, 0, 0, m1, m2)
    n = norm(v, q2, mB, sla, slg)
    I, r2 = v.i(), v.fsqrt(2)
    V, A_ = (a + b)*h['V'] + 2*I*(a - b)*h['Tt'], (c + d)*h['A'] + I*r2*(c - d)*h['T']
    M1, M2 = (a - b)*h['V'] + 2*I*(a + b)*h['Tt'], (c - d)*h['A'] + I*r2*(c + d)*h['T']
    s1, s2 = (c + d)*h['S'], (a + b)*h['P']
    sos = lambda sg: n*(8*(sq(V) + sq(A_)) + 12*(sq(s1 + sg*M1/2) + sq(s2 + sg*M2/2)) + sq(M1) + sq(M2))/3
    tot = bpll.dGdq2(J)
    v.ensure('same rate', v.and_(v.eq(tot, bplnu.dGdq2(J)), v.eq(tot, bpll_lfv.dGdq2(J))))
    v.ensure('integral over the angle', v.eq(tot, 2*J['a'] + 2*J['c']/3))
    v.ensure('forward minus backward', v.eq(bpll.AFB_num(J), (J['a'] + J['b']/2 + J['c']/3) - (J['a'] - J['b']/2 + J['c']/3)))
    for sg, x in ((1, 'AFB<=1'), (-1, 'AFB>=-1')):
        # total -+ AFB = twice the backward (forward) rate
        v.ensure(x+' squares', v.eq(tot - sg*bpll.AFB_num(J), sos(sg)))
        v.ensure(x, v.ge(sos(sg), 0))
    fh = 4*n*(sq(M1) + sq(M2) + sq(s1) + sq(s2))
    v.ensure('FH squares', v.eq(bpll.FH_num(J), fh))
    v.ensure('FH>=0', v.ge(fh, 0))


@harness('C13', targets=['flavio.physics.bdecays.bvll.observables.dGdq2', 'flavio.physics.bdecays.bvlnu.dGdq2', 'flavio.physics.bdecays.bvlnu.dGdq2_L',
                         'flavio.physics.bdecays.bvlnu.dGdq2_T', A+'angularcoeffs_general_v'], max_paths=40, time_limit=400)
def v_rate(v):
    """longitudinal and transverse B -> V rates are sums of squares of the longitudinal and transverse amplitudes and add up"""
    from flavio.physics.bdecays import bvlnu
    from flavio.physics.bdecays.bvll import observables as bvll
    q2, m1, m2, (a, b, c, d), slg = lep_kin(v)
    mB, mV, sla = had_kin(v, q2, ('mB', 'mV'))
    H = amps_v(v)
    J = angular.angularcoeffs_general_v(H, q2, mB, mV, 0, 0, m1, m2)
    n = norm(v, q2, mB, sla, slg)
    I, r2 = v.i(), v.fsqrt(2)
    part = {}
    for l in HEL.values():
        V, X, T, Y = H[l, 'V'], H[l, 'A'], H[l, 'T'], H[l, 'Tt']
        x, y = (a + b)*V + 2*I*(a - b)*Y, (c + d)*X + I*r2*(c - d)*T
        part[l] = 2*sq(x) + 2*sq(y) + sq((a - b)*V + 2*I*(a + b)*Y) + sq((c - d)*X + I*r2*(c + d)*T)
    L = 4*n*(part['0'] + 3*sq((c + d)*H['S']) + 3*sq((a + b)*H['P']))/3
    T = 4*n*(part['pl'] + part['mi'])/3
    v.ensure('longitudinal', v.eq(bvlnu.dGdq2_L(J), L))
    v.ensure('transverse', v.eq(bvlnu.dGdq2_T(J), T))
    v.ensure('longitudinal >= 0', v.ge(L, 0))
    v.ensure('transverse >= 0', v.ge(T, 0))
    v.ensure('sum', v.eq(bvlnu.dGdq2(J), bvlnu.dGdq2_L(J) + bvlnu.dGdq2_T(J)))
    v.ensure('same', v.eq(bvlnu.dGdq2(J), bvll.dGdq2(J)))


# ------------------------------------------------------------------ helicity amplitudes in terms of Wilson coefficients and form factors
WC = ['7', '7p', 'v', 'vp', 'a', 'ap', 's', 'sp', 'p', 'pp', 't', 'tp']
FFP, FFV = ['f+', 'f0', 'fT'], ['A0', 'A1', 'A12', 'V', 'T1', 'T2', 'T23']


def setup_p(v):
    q2, m1, m2, kin, slg = lep_kin(v)
    mB, mP, sla = had_kin(v, q2)
    ff = {k: v.real('ff'+k) for k in FFP}
    mb, mq = v.real('mb', pos=True, dom=(3, 5)), v.real('mq', nonneg=True, dom=(0, 2))
    v.assume_(mb > mq)
    N = v.cplx('N')
    return q2, mB, mP, mb, mq, m1, m2, ff, N, kin, sla, slg


def setup_v(v):
    q2, m1, m2, kin, slg = lep_kin(v)
    mB, mV, sla = had_kin(v, q2, ('mB', 'mV'))
    ff = {k: v.real('ff'+k) for k in FFV}
    mb, mq = v.real('mb', pos=True, dom=(3, 5)), v.real('mq', nonneg=True, dom=(0, 2))
    v.assume_(mb > mq)
    N = v.cplx('N')
    return q2, mB, mV, mb, mq, m1, m2, ff, N, kin, sla, slg


def wcdict(v_, pre='c', **kw):
    w = {k: 0 for k in WC}
    w.update({k: v_.cplx(pre+k) for k in WC} if not kw else kw)
    return w


def amp_linear(v, f, setup):
    q2, mB, mM, mb, mq, m1, m2, ff, N, kin, sla, slg = setup(v)
    args = (q2, mB, mM, mb, mq, m1, m2, ff)
    w1, w2 = wcdict(v, 'x'), wcdict(v, 'y')
    k = v.real('k')
    H1, H2, H3 = f(*args, w1, N), f(*args, w2, N), f(*args, {i: w1[i] + k*w2[i] for i in WC}, N)
    for i in H1:
        v.ensure('linear %s' % (i,), v.eq(H3[i], H1[i] + k*H2[i]))
    U = f(*args, w1, 1)
    for i in H1:
        v.ensure('prefactor %s' % (i,), v.eq(H1[i], N*U[i]))


@harness('C13', targets=[A+'helicity_amps_p'], max_paths=20)
def amps_p_linear(v):
    """the amplitudes are linear in the Wilson coefficients and proportional to the prefactor"""
    amp_linear(v, angular.helicity_amps_p, setup_p)


@harness('C13', targets=[A+'helicity_amps_v'], max_paths=20)
def amps_v_linear(v):
    amp_linear(v, angular.helicity_amps_v, setup_v)


@harness('C13', targets=[A+'helicity_amps_p'], max_paths=20)
def amps_p_laws(v):
    """parity (only sums of primed and unprimed vector, scalar, dipole coefficients), current conservation, dipole-tensor relation,
    reference amplitude of a left-handed current"""
    q2, mB, mP, mb, mq, m1, m2, ff, N, kin, sla, slg = setup_p(v)
    f = lambda w: angular.helicity_amps_p(q2, mB, mP, mb, mq, m1, m2, ff, w, N)
    w = wcdict(v)
    sw = {k: w[k[:-1] if k.endswith('p') and k != 'p' else k + 'p'] for k in WC}
    H, P = f(w), f(sw)
    for k in H:
        v.ensure('parity '+k, v.eq(P[k], -H[k] if k == 'T' else H[k]))
    sq2 = v.fsqrt(q2)
    # vector current: f+ for the spin-one part, f0 for the timelike part, related by current conservation
    one = f(wcdict(v, v=1))
    v.ensure('vector', v.eq(2*sq2*one['V'], N*sla*ff['f+']))
    v.ensure('timelike vector', v.eq(2*q2*one['S'], N*(mB**2 - mP**2)*(m1 - m2)*ff['f0']))
    ax = f(wcdict(v, a=1))
    v.ensure('axial', v.eq(ax['A'], one['V']))
    v.ensure('timelike axial', v.eq(2*q2*ax['P'], N*(mB**2 - mP**2)*(m1 + m2)*ff['f0']))
    # scalar density = divergence of the vector current / quark mass difference
    v.ensure('scalar', v.eq(f(wcdict(v, s=1))['S']*(mb - mq)*(m1 - m2), one['S']*q2))
    v.ensure('pseudoscalar', v.eq(f(wcdict(v, p=1))['P']*(mb - mq)*(m1 + m2), ax['P']*q2))
    dip = f(wcdict(v, **{'7': 1}))
    v.ensure('dipole', v.eq(dip['V']*(mB + mP)*sq2, N*sla*mb*ff['fT']))
    # photon penguin and tensor operators involve the same quark bilinear
    t = f(wcdict(v, t=1))
    v.ensure('tensor', v.eq(v.fsqrt(2)*mb*t['T'], -v.i()*sq2*dip['V']))
    v.ensure('dual tensor', v.eq(t['T'], v.fsqrt(2)*t['Tt']))
    for k, z in (('v', 'APTTt'), ('a', 'VSTTt'), ('s', 'VAPT'), ('p', 'VAST'), ('t', 'VASP'), ('7', 'ASPT')):
        o = f(wcdict(v, **{k: 1}))
        for x in 'VASPT':
            if x in z:
                v.ensure('%s does not contribute to %s' % (k, x), v.eq(o[x], 0, scale=1))


@harness('C13', targets=[A+'helicity_amps_v', A+'transversity_to_helicity'], max_paths=20)
def amps_v_laws(v):
    """transversity amplitudes of the literature for vector, axial and dipole operators; parity; current conservation; tensor-dipole relation"""
    q2, mB, mV, mb, mq, m1, m2, ff, N, kin, sla, slg = setup_v(v)
    f = lambda w: angular.helicity_amps_v(q2, mB, mV, mb, mq, m1, m2, ff, w, N)
    w = wcdict(v)
    sw = {k: w[k[:-1] if k.endswith('p') and k != 'p' else k + 'p'] for k in WC}
    H, P = f(w), f(sw)
    flip = {'pl': 'mi', 'mi': 'pl', '0': '0'}
    for l in flip:
        for t in ('V', 'A', 'T', 'Tt'):
            v.ensure('parity %s %s' % (l, t), v.eq(P[l, t], H[flip[l], t] if t == 'T' else -H[flip[l], t]))
    v.ensure('parity S', v.eq(P['S'], -H['S']))
    v.ensure('parity P', v.eq(P['P'], -H['P']))
    sq2, r2, I = v.fsqrt(q2), v.fsqrt(2), v.i()
    # hep-ph/9907386, 0811.1214: transversity amplitudes
    TA = {}
    for X, s in (('L', -1), ('R', 1)):
        k = N/4
        TA['perp_'+X] = k*r2*sla*((w['v'] + w['vp'] + s*(w['a'] + w['ap']))*ff['V']/(mB + mV) + 2*mb/q2*(w['7'] + w['7p'])*ff['T1'])
        TA['para_'+X] = -k*r2*(mB**2 - mV**2)*((w['v'] - w['vp'] + s*(w['a'] - w['ap']))*ff['A1']/(mB - mV) + 2*mb/q2*(w['7'] - w['7p'])*ff['T2'])
        TA['0_'+X] = -k*8*mB*mV/sq2*((w['v'] - w['vp'] + s*(w['a'] - w['ap']))*ff['A12'] + mb/(mB + mV)*(w['7'] - w['7p'])*ff['T23'])
    R = angular.transversity_to_helicity(TA)
    for l in flip:
        for t in 'VA':
            v.ensure('transversity %s%s' % (l, t), v.eq(H[l, t], R[l, t]))
    # timelike and scalar
    ax, ve = f(wcdict(v, a=1)), f(wcdict(v, v=1))
    v.ensure('timelike axial', v.eq(2*q2*ax['P'], I*N*sla*(m1 + m2)*ff['A0']))
    v.ensure('timelike vector', v.eq(2*q2*ve['S'], I*N*sla*(m1 - m2)*ff['A0']))
    v.ensure('scalar', v.eq(f(wcdict(v, s=1))['S']*(mb + mq)*(m1 - m2), ve['S']*q2))
    v.ensure('pseudoscalar', v.eq(f(wcdict(v, p=1))['P']*(mb + mq)*(m1 + m2), ax['P']*q2))
    # tensor
    tn = wcdict(v, t=w['t'], tp=w['tp'])
    dip, Ht = f(wcdict(v, **{'7': w['t'], '7p': -w['tp']})), f(tn)
    Hm = f(wcdict(v, t=w['t'], tp=-w['tp']))
    for l in flip:
        v.ensure('tensor '+l, v.eq(r2*mb*Ht[l, 'T'], -I*sq2*dip[l, 'V']))
        v.ensure('dual tensor '+l, v.eq(Hm[l, 'T'], r2*Ht[l, 'Tt']))
    for k in ('7', 'v', 'a', 's', 'p', 't'):
        o = f(wcdict(v, **{k: 1}))
        allow = {'7': ['V'], 'v': ['V', 'S'], 'a': ['A', 'P'], 's': ['S'], 'p': ['P'], 't': ['T', 'Tt']}[k]
        for x in o:
            if (x[1] if isinstance(x, tuple) else x) not in allow:
                v.ensure('%s does not contribute to %s' % (k, x), v.eq(o[x], 0, scale=1))


@harness('C13', targets=[A+'helicity_amps_p', A+'helicity_amps_v', A+'angularcoeffs_general_p', A+'angularcoeffs_general_v'], max_paths=40)
def chirality(v):
    """a massless left-handed neutrino: the amplitudes for a right-handed one vanish (p + lepton mass m only in one helicity state), so that
    for purely left-handed lepton currents the vector/axial, scalar/pseudoscalar and the two tensor amplitudes are equal up to sign"""
    p, u = v.real('p', dom=(0.3, 1.0), pos=True), v.real('u', dom=(1.01, 1.6), pos=True)
    E, m = (u**2 + p**2/u**2)/2, (u**2 - p**2/u**2)/2
    v.assume_(m >= 0)
    q2 = (E + p)**2
    mB, mM, sla = had_kin(v, q2, ('mB', 'mM'))
    mb, mq = v.real('mb', pos=True, dom=(3, 5)), v.real('mq', nonneg=True, dom=(0, 2))
    v.assume_(mb > mq)
    N = v.cplx('N')
    w = {k: 0 for k in WC}
    for a, b in (('v', 'a'), ('vp', 'ap'), ('s', 'p'), ('sp', 'pp')):
        w[a] = v.cplx('c'+a)
        w[b] = -w[a]
    w['tp'] = v.cplx('ctp')
    hp = angular.helicity_amps_p(q2, mB, mM, mb, mq, m, 0, {k: v.real('f'+k) for k in FFP}, w, N)
    hv = angular.helicity_amps_v(q2, mB, mM, mb, mq, m, 0, {k: v.real('f'+k) for k in FFV}, w, N)
    r2 = v.fsqrt(2)
    v.ensure('P: V+A', v.eq(hp['V'], -hp['A']))
    v.ensure('P: S+P', v.eq(hp['S'], -hp['P']))
    v.ensure('P: tensors', v.eq(hp['T'], -r2*hp['Tt']))
    v.ensure('V: S+P', v.eq(hv['S'], -hv['P']))
    for l in HEL.values():
        v.ensure('V: V+A '+l, v.eq(hv[l, 'V'], -hv[l, 'A']))
        v.ensure('V: tensors '+l, v.eq(hv[l, 'T'], -r2*hv[l, 'Tt']))
