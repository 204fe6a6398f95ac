"""C11 access to Wilson coefficients and running couplings at any scale"""
import inspect
from math import inf
import numpy as np
from vf.api import harness
from vf.stubs import fresh_registry
import flavio
from flavio import functions as fn
from flavio.classes import Observable, Prediction
from flavio.physics import eft
from flavio.physics.eft import WilsonCoefficients
from flavio.physics.running import running
from wilson import wcxf, Wilson

E_ = 'flavio.physics.eft.WilsonCoefficients.'
R_ = 'flavio.physics.running.running.'
EFTS = ['WET', 'WET-4', 'WET-3']
SECTORS = {e: list(wcxf.Basis[e, 'flavio'].sectors) for e in EFTS}
LEGACY = list(eft.sectors_flavio2wcxf)


def coefficients(e, sector):
    b = wcxf.Basis[e, 'flavio']
    return sorted(b.all_wcs) if sector == 'all' else sorted(b.sectors[sector])


class Point(WilsonCoefficients):
    """contract of wilson: match_run gives the non-zero coefficients of the requested sectors of the requested EFT, basis and scale"""

    def __init__(self, v, nonzero):
        super().__init__()
        self.v, self.nonzero, self.asked = v, nonzero, []
        if nonzero is not None:
            self.wc = wcxf.WC('SMEFT', 'Warsaw', 1000., {'phil3_33': nonzero})

    def value(self, name, scale, e, basis):
        return self.v.real('%s %s %s' % (name, e, basis)) + 0*scale

    def match_run(self, scale, eft, basis, sectors='all'):
        self.asked.append((scale, eft, basis, sectors))
        secs = [sectors] if isinstance(sectors, str) else list(sectors)
        x = {n: self.value(n, scale, eft, basis) for s in secs for n in coefficients(eft, s)[::2]}
        return type('C', (), {'dict': x})()


@harness('C11', targets=[E_ + 'get_wc', E_ + 'get_wcxf'], level='bounded', note='every sector of every low-energy EFT; every other coefficient of the sector is non-zero', max_paths=2000, total=600, native_n=40)
def every_coefficient(v):
    """every coefficient of the sector is returned: the running value if it is non-zero, zero otherwise"""
    e = v.choice('eft', EFTS)
    sector = v.choice('sector', SECTORS[e])
    how = v.choice('request', ['eft', 'nf_out', 'default'] if e == 'WET' else ['eft', 'nf_out'])
    scale = v.real('scale', pos=True, dom=(1, 10))
    kind = v.choice('point', ['unset', 'zero', 'new physics'])
    w = Point(v, {'unset': None, 'zero': 0, 'new physics': 1e-6}[kind])
    kw = {'eft': {'eft': e}, 'nf_out': {'nf_out': {'WET': 5, 'WET-4': 4, 'WET-3': 3}[e]}, 'default': {}}[how]
    got = w.get_wc(sector, scale, {}, **kw)
    all_ = coefficients(e, sector)
    v.ensure('complete', set(all_) <= set(got))
    live = set(all_[::2]) if kind == 'new physics' else set()
    for n in got:
        v.ensure('value', v.eq(got[n], w.value(n, scale, e, 'flavio')) if n in live else v.eq(got[n], 0))
    v.ensure('scale, EFT and basis', all(a[1:3] == (e, 'flavio') and a[3] in ((sector,), sector) for a in w.asked))
    v.ensure('scale', v.and_(*[v.eq(a[0], scale) for a in w.asked]) if w.asked else kind != 'new physics')


@harness('C11', targets=[E_ + 'get_wc', E_ + 'get_wcxf'], level='bounded', note='every legacy sector name', max_paths=500, native_n=40)
def legacy_sectors(v):
    """a sector named by the flavours of its coefficients contains all coefficients with these flavours, and is the sector of these coefficients"""
    name = v.choice('name', LEGACY)
    kind = v.choice('point', ['unset', 'new physics'])
    w = Point(v, None if kind == 'unset' else 1e-6)
    scale = v.real('scale', pos=True, dom=(1, 10))
    got = w.get_wc(name, scale, {})
    b = wcxf.Basis['WET', 'flavio']
    want = [c for c in b.all_wcs if c.endswith('_' + name)]
    v.ensure('coefficients exist', len(want) > 0)
    v.ensure('coefficients with these flavours', set(want) <= set(got))
    v.ensure('one sector', any(set(got) == set(b.sectors[s]) for s in b.sectors))
    if kind != 'unset':
        ref = Point(v, 1e-6).get_wc(next(s for s in b.sectors if want[0] in b.sectors[s]), scale, {})
        v.ensure('same as the sector', set(ref) == set(got) and v.and_(*[v.eq(ref[k], got[k]) for k in ref]))


@harness('C11', targets=[E_ + 'get_wc', E_ + 'get_wcxf', E_ + 'run_wcxf', E_ + 'get_initial_wcxf', E_ + 'set_initial', E_ + 'set_initial_wcxf'], level='bounded', note='', max_paths=100, native_n=8)
def invalid_requests(v):
    """unknown sectors and flavour numbers are rejected; initial values are returned as given"""
    w = Point(v, 1e-6)
    nf = v.choice('nf', [0, 1, 2, 6, 7])
    for f in (w.get_wc, w.get_wcxf):
        v.ensure('flavour number', raises(lambda: f('sb', 4.8, {}, nf_out=nf), ValueError))
    v.ensure('sector', raises(lambda: w.get_wc('nosector', 4.8, {}), KeyError))
    v.ensure('removed', raises(lambda: w.run_wcxf(4.8), ValueError))
    u = WilsonCoefficients()
    v.ensure('initial values needed', raises(lambda: u.get_initial_wcxf, ValueError))
    v.ensure('no coefficients', dict(u.get_wcxf('sb', 4.8, {}).values) == {})
    x = v.choice('value', [1e-6, -2e-7])
    if v.boolean('wcxf'):
        u.set_initial_wcxf(wcxf.WC('WET', 'flavio', 4.8, {'C9_bsmumu': x}))
    else:
        u.set_initial({'C9_bsmumu': x}, 4.8)
    i = u.get_initial_wcxf
    v.ensure('initial values', (i.eft, i.basis, i.scale) == ('WET', 'flavio', 4.8) and dict(i.dict) == {'C9_bsmumu': x})


def raises(f, e):
    try:
        f()
    except e:
        return True
    return False


@harness('C11', targets=['flavio.functions.get_dependent_wcs', 'flavio.functions.AwareWilson.match_run'], level='bounded', note='observables using up to two sectors', max_paths=60, native_n=6)
def dependence(v):
    """the reported dependence on Wilson coefficients contains every sector, scale and EFT the prediction uses"""
    fresh_registry(v)
    Observable('o')
    s = v.choice('sectors', [['bsmumu'], ['sb', 'dbdb'], ['bcenue'], ['dF=0'], []])
    kw = v.choice('eft', [{}, {'nf_out': 4}]) if s == ['dF=0'] else {}
    if v.sym:
        v.setattr(Wilson, 'match_run', lambda self, *a, **k: type('C', (), {'dict': {}})())

    def f(wc, par):
        return sum(x.real for i, n in enumerate(s) for x in wc.get_wc(n, 4.8 + i, par, **kw).values()) + 1
    Prediction('o', f)
    want = {(4.8 + i, 'WET-4' if kw else 'WET', 'flavio', (eft.sectors_flavio2wcxf.get(n, n),)) for i, n in enumerate(s)}
    v.ensure('dependence', fn.get_dependent_wcs('o') == want)


# ------------------------------------------------------------------ running couplings and masses
ACTIVE = {6: (3, 3, 3), 5: (2, 3, 3), 4: (2, 2, 3), 3: (1, 2, 2)}


def thresholds():
    t = flavio.config['RGE thresholds']
    return {3: 0, 4: t['mc'], 5: t['mb'], 6: t['mt'], 7: inf}


def region(v, nf):
    """a scale with nf active flavours"""
    t = thresholds()
    s = v.real('scale', pos=True, dom=(max(t[nf], 0.5), min(t[nf + 1], 500)))
    v.assume_(v.and_(v.ge(s, t[nf]), v.gt(t[nf + 1], s) if nf < 6 else True))
    return s


@harness('C11', targets=[R_ + 'get_alpha_e', R_ + 'run_alpha_e', R_ + 'get_nf'], max_paths=60)
def alpha_e(v):
    """one-loop running of the fine structure constant: the inverse coupling is linear in the logarithm of the scale, with the charges of the active fermions,
    continuous at the thresholds, and given by the input at the Z mass"""
    a = v.real('alpha_e', pos=True, dom=(0.007, 0.0085))
    par = {'alpha_e': a}
    nf = v.choice('nf', [3, 4, 5, 6])
    s = region(v, nf)
    t = thresholds()
    v.ensure('number of flavours', running.get_nf(s) == nf)
    given = v.boolean('flavours given')
    get = lambda x, n=nf: running.get_alpha_e(par, x, nf_out=n)
    got = running.get_alpha_e(par, s, **({'nf_out': nf} if given else {}))
    MZ = 91.1876
    # reference scale inside or at the edge of the region
    ref = {6: t[6], 5: MZ, 4: t[5], 3: t[4]}[nf]
    if v.sym:
        v.assume_(v.gt(get(ref), 0) if nf != 5 else True)
        v.assume_(v.gt(got, 0))
    b = sum(n*q for n, q in zip(ACTIVE[nf], (3*v.num(4)/9, 3*v.num(1)/9, 1)))
    v.ensure('running', v.eq(1/got, 1/get(ref) - 2*b/(3*v.pi)*v.flog(s/ref), tol=1e-9, scale=100))
    if nf == 5:
        v.ensure('input', v.eq(get(MZ), a))
    else:
        v.ensure('continuous', v.eq(get(ref), get(ref, 5 if nf in (6, 4) else 4), scale=1e-2))


@harness('C11', targets=[R_ + 'run_alpha_e'], max_paths=200)
def alpha_e_group(v):
    """running from 1 to 2 and from 2 to 3 is running from 1 to 3"""
    a = v.real('a', pos=True, dom=(0.007, 0.0085))
    s = [v.real('s%d' % i, pos=True, dom=(1, 200)) for i in range(3)]
    n = dict(n_u=v.choice('u', [1, 2, 3]), n_d=v.choice('d', [2, 3]), n_e=v.choice('e', [2, 3]))
    x = running.run_alpha_e(a, s[0], s[1], **n)
    if v.sym:
        v.assume_(v.gt(x, 0))
    y = running.run_alpha_e(x, s[1], s[2], **n)
    z = running.run_alpha_e(a, s[0], s[2], **n)
    if v.sym:
        v.assume_(v.and_(v.gt(y, 0), v.gt(z, 0)))
    v.ensure('composition', v.eq(1/y, 1/z, scale=100))


class QCD:
    """contract of wilson.util.qcd and rundec: arbitrary positive functions of their arguments"""
    SIG = {'alpha_s': ['scale', 'f', 'alphasMZ', 'loop'], 'm_b': ['mbmb', 'scale', 'f', 'alphasMZ', 'loop'], 'm_c': ['mcmc', 'scale', 'f', 'alphasMZ', 'loop'],
           'm_s': ['ms2', 'scale', 'f', 'alphasMZ', 'loop']}

    def __init__(self, v):
        self.v = v

    def __getattr__(self, n):
        sig = QCD.SIG[n]

        def f(*a, **k):
            d = dict(zip(sig, a), **k)
            assert set(d) <= set(sig)
            return self.v.uf('qcd ' + n, *[d.get(x, 0) for x in sig], pos=True)
        return f

    def CRunDec(self):
        v = self.v

        class C:
            def __getattr__(s, n):
                return lambda *a: v.uf('rundec ' + n, *[0 if x is None else x for x in a], pos=True)
        return C()


@harness('C11', targets=[R_ + x for x in ('get_alpha_s', 'get_alpha', 'get_mb', 'get_mc', 'get_ms', 'get_mu', 'get_md', 'get_mq')], uses=['wilson.util.qcd'], max_paths=400, native_n=24)
def masses(v):
    """each running mass and coupling is that of its own input parameter, at the given scale and number of flavours (by default those active at the scale)"""
    v.setattr(running, 'qcd', QCD(v))
    par = {k: v.real(k, pos=True, dom=(0.1, 5)) for k in ('alpha_s', 'm_u', 'm_d', 'm_s', 'm_c', 'm_b')}
    act = v.choice('nf', [3, 4, 5, 6])
    s = region(v, act)
    nf = v.choice('requested', [None, 3, 4, 5])
    kw = {} if nf is None else {'nf_out': nf}
    n = nf or act
    q = QCD(v)
    v.ensure('alpha_s', v.eq(running.get_alpha_s(par, s, **kw), q.alpha_s(s, n, par['alpha_s'])))
    v.setattr(running, 'get_alpha_e', lambda par, scale, nf_out=None: v.uf('alpha_e', scale, nf_out or 0))
    both = running.get_alpha(par, s, **kw)
    v.ensure('both couplings', set(both) == {'alpha_s', 'alpha_e'} and v.and_(v.eq(both['alpha_s'], q.alpha_s(s, n, par['alpha_s'])), v.eq(both['alpha_e'], v.uf('alpha_e', s, nf or 0))))
    for x, f in (('b', 'm_b'), ('c', 'm_c'), ('s', 'm_s'), ('d', 'm_s'), ('u', 'm_s')):
        want = getattr(q, f)(par['m_' + x], s, n, par['alpha_s'])
        v.ensure('mass', v.eq(running.get_mq(x, par, s, **kw), want))
        v.ensure('mass by name', v.eq(getattr(running, 'get_m' + x)(par, s, **kw), want))


@harness('C11', targets=[R_ + x for x in ('get_mc_pole', 'get_mb_pole', 'get_mb_1S', 'get_mt', 'get_mt_mt', '_get_mc_pole', '_get_mb_pole', '_get_mb_1S', '_get_mt', '_get_mt_mt')],
         uses=['rundec', 'wilson.util.qcd'], max_paths=40, native_n=6)
def mass_schemes(v):
    """scheme conversions use the mass of the same quark and the coupling at the scale of the conversion"""
    v.setattr(running, 'qcd', QCD(v))
    v.setattr(running, 'rundec', QCD(v))
    par = {'alpha_e': 1/128, 'alpha_s': v.real('alpha_s', pos=True, dom=(0.1, 0.13)), 'm_c': v.real('m_c', pos=True, dom=(1.2, 1.27)), 'm_b': v.real('m_b', pos=True, dom=(4.2, 4.3)),
           'm_t': v.real('m_t', pos=True, dom=(174, 175))}
    t = thresholds()
    v.assume_(v.and_(v.gt(t[4], par['m_c']), v.gt(par['m_b'], t[5]), v.gt(t[6], par['m_b']), v.gt(par['m_t'], t[6])))
    q, c = QCD(v), QCD(v).CRunDec()
    al = lambda s, n: q.alpha_s(s, n, par['alpha_s'])
    l = v.choice('loops', [None, 1, 2, 3])
    k = {} if l is None else {'nl': l}
    v.ensure('charm pole mass', v.eq(running.get_mc_pole(par, **k), c.mMS2mOS(par['m_c'], None, al(par['m_c'], 3), par['m_c'], 4, l or 2)))
    v.ensure('bottom pole mass', v.eq(running.get_mb_pole(par, **k), c.mMS2mOS(par['m_b'], None, al(par['m_b'], 5), par['m_b'], 5, l or 2)))
    v.ensure('bottom 1S mass', v.eq(running.get_mb_1S(par, **k), c.mMS2m1S(par['m_b'], None, al(par['m_b'], 5), par['m_b'], 5, l or 3)))
    s = v.real('scale', pos=True, dom=(174, 300))
    v.assume_(v.ge(s, t[6]))
    v.ensure('running top mass', v.eq(running.get_mt(par, s), c.mOS2mMS(par['m_t'], None, al(s, 6), s, 6, 3)))
    v.ensure('top mass', v.eq(running.get_mt_mt(par), c.mOS2mSI(par['m_t'], None, al(par['m_t'], 6), 6, 3)))


@harness('C11', targets=[R_ + 'get_f_perp', R_ + '_rg_factor_f_perp'], uses=[R_ + 'get_alpha_s'], max_paths=60)
def tensor_decay_constant(v):
    """leading-logarithmic running with exponent 4/(3 beta_0) of every region, from 2 GeV with three flavours, matched continuously at the thresholds"""
    act = v.choice('nf', [3, 4, 5, 6])
    s = region(v, act)
    if v.sym:
        v.assume_(v.not_(v.eq(s, 2)))
    par = {'f_perp_rho0': v.real('f', pos=True, dom=(0.1, 0.2)), 'alpha_s': 0.1181}
    v.setattr(running, 'get_alpha_s', lambda par, scale, nf_out=None: v.uf('alpha_s', scale, nf_out, pos=True))
    given = v.boolean('flavours given')
    got = running.get_f_perp(par, 'rho0', s, **({'nf_out': act} if given else {}))
    t = thresholds()
    cur, x = 2, par['f_perp_rho0']
    for nf in range(3, act + 1):
        stop = s if nf == act else t[nf + 1]
        x = x*(v.uf('alpha_s', stop, nf, pos=True)/v.uf('alpha_s', cur, nf, pos=True))**(4/(33 - 2*nf))          # exponent 4/(3 beta_0)
        cur = stop
    v.ensure('running', v.eq(got, x, scale=1))
    v.ensure('input', v.eq(running.get_f_perp(par, 'rho0', 2), par['f_perp_rho0']))


@harness('C11', targets=[R_ + 'rg_evolve_sm', R_ + '_rg_evolve_sm', R_ + 'rg_evolve', R_ + '_thresholds'], uses=['scipy.integrate.odeint'], level='bounded', note='two-component vectors', max_paths=200)
def rg_evolution(v):
    """the evolution is the composition of the flows with the number of flavours active between the thresholds"""
    seg = []

    def odeint(f, x, ts):
        seg.append((f(None, None), ts[0], ts[1]))
        out = [v.uf('flow %d' % i, f(None, None), ts[0], ts[1], *list(x)) for i in range(len(x))]
        return np.array([list(x), out])
    v.setattr(running, 'odeint', odeint)
    a, b = v.real('from', pos=True, dom=(0.2, 400)), v.real('to', pos=True, dom=(0.2, 400))
    v.assume_(v.and_(v.ge(a, 0.1), v.ge(b, 0.1)))
    if v.sym:
        t0 = thresholds()
        v.assume_(v.and_(v.not_(v.eq(a, 0.1)), *[v.not_(v.eq(x, t0[n])) for x in (a, b) for n in (4, 5, 6)]))
    x0 = [v.real('x0'), v.real('x1')]
    start = np.array(x0)
    got = running.rg_evolve_sm(start, lambda nf: (lambda x, mu: nf), a, b)
    t = thresholds()
    t[3] = 0.1
    cur, x = a, x0
    if a == b:
        v.ensure('nothing to do', v.and_(*[v.eq(g, y) for g, y in zip(got, x0)]))
        return
    for nf, f, to in seg:
        v.ensure('contiguous', v.eq(f, cur))
        lo, hi = t[nf], t[nf + 1]
        for s in (f, to):
            v.ensure('inside the region', v.and_(v.ge(s, lo), v.le(s, hi) if nf < 6 else True))
        x = [v.uf('flow %d' % i, nf, f, to, *x) for i in range(2)]
        cur = to
    v.ensure('reaches the final scale', v.eq(cur, b))
    v.ensure('result', v.and_(*[v.eq(g, y) for g, y in zip(got, x)]))
    v.ensure('input not modified', v.and_(*[v.eq(g, y) for g, y in zip(start, x0)]))


@harness('C11', targets=[R_ + 'get_wilson', R_ + 'make_wilson_rge_derivative'], level='bounded', native_only=True, native_n=6, note='two coefficients with constant anomalous dimension, run time only')
def wilson_running(v):
    """evolution of a vector of coefficients with a constant anomalous dimension: C(mu) = (mu/mu_0)^(gamma^T) C(mu_0)"""
    import scipy.linalg
    g = np.array([[v.real('g%d%d' % (i, j), dom=(-1, 1)) for j in range(2)] for i in range(2)])
    c = np.array([v.cplx('c%d' % i) for i in range(2)])
    a, b = v.real('from', dom=(5, 100)), v.real('to', dom=(5, 100))
    par = {'alpha_s': 0.118, 'alpha_e': 1/128}
    got = running.get_wilson(par, list(c), running.make_wilson_rge_derivative(lambda nf, als, ale: g), a, b, nf_out=5)
    want = scipy.linalg.expm(g.T*np.log(b/a)).dot(c)
    v.ensure('running', bool(np.all(np.abs(got - want) < 1e-4*np.max(np.abs(want)))))


M_ = 'flavio.physics.running.masses.'


def pole_terms(v, L, nf):
    """two-loop relation of kinetic and pole mass, m_pole = m_kin + [Lambda(mu)] + [mu_pi^2(mu)]/2m: one- and two-loop coefficients of
    a mu and a mu^2/m, a = alpha_s(m)/pi, L = log(m/2mu)"""
    n = v.num
    b0 = 11 - 2*nf*n('1/3')
    CF, CA = n('4/3'), 3
    k = CA*(v.pi**2/6 - n('13/12'))
    lam = (CF*n('4/3'), CF*n('4/3')*((n('4/3') + L/2)*b0 - k))
    mupi = (CF/2, CF/2*((n('13/12') + L/2)*b0 - k))
    return lam, mupi


@harness('C11', targets=[M_ + x for x in ('fKsFromMs1', 'fKsFromMs2', 'fKsFromMs3', 'mKS2mMS')], max_paths=60, native_n=8)
def kinetic_mass(v):
    """the kinetic mass is the pole mass minus the perturbative binding and kinetic energy below the cutoff"""
    from flavio.physics.running import masses as ms
    n = v.num
    m, mu, a = v.real('m', pos=True, dom=(4, 5)), v.real('mu', pos=True, dom=(0.5, 1.5)), v.real('alpha_s', pos=True, dom=(0.1, 0.3))
    nf = v.choice('nf', [3, 4, 5])
    nl = v.choice('nl', [0, 1, 2, 3])
    L = v.flog(m/(2*mu))
    lam, mupi = pole_terms(v, L, nf)
    z2 = v.pi**2/6
    x = mu/m
    f1, f2, f3 = [f(mu, m, nf) for f in (ms.fKsFromMs1, ms.fKsFromMs2, ms.fKsFromMs3)]
    # MSbar/pole: 1 + p1 a + p2 a^2;  pole/kinetic: 1 + k1 a + k2 a^2
    from flavio.math.functions import zeta
    p1 = -n('4/3')
    p2 = p1*p1 - (n('307/32') + 2*z2 + n('2/3')*z2*v.flog(2) - zeta(3)/6 - nf*(n('71/144') + z2/3))
    k1, k2 = [lam[i]*x + mupi[i]*x*x for i in (0, 1)]

    def near(name, p, q):      # zeta(3) is a float: its products are rounded
        v.ensure(name, v.le((p - q)**2, v.num('1e-16')))
    v.ensure('one loop', v.eq(f1, p1 + k1))
    near('two loops', f2, p2 + p1*k1 + k2)
    # leading beta0 at three loops: dP3/dL = 2 P2 for each operator, pole constant from hep-ph/0302262
    b = (11 - 2*nf*n('1/3'))/2
    if v.sym:
        d = v.deriv(lambda u: ms.fKsFromMs3(mu, u, nf), m)*m
        ref3 = lambda u, l: b*b*(n('16/9')*u*((l + n('8/3'))**2 + n('67/36') - z2) + n('2/3')*u*u*((l + n('13/6'))**2 + n('10/9') - z2))
        near('three loops', f3, ref3(x, L) - b*b*(n('2353/2592') + n('13/36')*v.pi**2 + n('7/6')*zeta(3)))
        v.ensure('two and three loops', v.eq(d, b*b*(n('16/9')*x*(2*(L + n('8/3')) - (L + n('8/3'))**2 - n('67/36') + z2)
                                                      + n('2/3')*x*x*(2*(L + n('13/6')) - 2*((L + n('13/6'))**2 + n('10/9') - z2))), scale=100))
    r = a/v.pi
    want = 1 + sum(c*r**(i+1) for i, c in enumerate((f1, f2, f3)[:nl]))
    v.ensure('to MSbar', v.eq(ms.mKS2mMS(m, nf, a, mu, nl), m*want))


@harness('C11', targets=[M_ + 'mMS2mKS'], uses=[M_ + x for x in ('fKsFromMs1', 'fKsFromMs2', 'fKsFromMs3')], native_n=8)
def kinetic_mass_inverse(v):
    """the kinetic mass of an MSbar mass: three iterations of the inverse series, whose coefficients are those of the inverse to second order"""
    from flavio.physics.running import masses as ms
    m, mu, a = v.real('m', pos=True, dom=(4, 5)), v.real('mu', pos=True, dom=(0.5, 1.5)), v.real('alpha_s', pos=True, dom=(0.1, 0.3))
    nl = v.choice('nl', [0, 1, 2, 3])
    f = [lambda Mu, M, Nf, i=i: v.uf('f%d' % i, Mu, M, Nf) for i in range(3)]
    for i in range(3):
        v.setattr(ms, 'fKsFromMs%d' % (i+1), f[i])
    r = a/v.pi

    def back(u):
        g = [h(mu, u, 4) for h in f]
        return m*(1 + sum(c*r**(i+1) for i, c in enumerate((-g[0], g[0]**2 - g[1], -g[2])[:nl])))
    v.ensure('from MSbar', v.eq(ms.mMS2mKS(m, 4, a, mu, nl), back(back(back(m)))))


@harness('C11', targets=[R_ + 'get_mb_KS', R_ + '_get_mb_KS'], uses=[M_ + 'mMS2mKS', 'wilson.util.qcd'], max_paths=60, native_n=8)
def kinetic_mass_bottom(v):
    """the b mass in the kinetic scheme: from mb(mb), four light flavours, alpha_s(mb), three orders, cutoff as given"""
    from flavio.physics.running import masses as ms
    v.setattr(running, 'qcd', QCD(v))
    par = {'alpha_e': 1/128, 'alpha_s': v.real('alpha_s', pos=True, dom=(0.1, 0.13)), 'm_b': v.real('m_b', pos=True, dom=(4.2, 4.3))}
    t = thresholds()
    v.assume_(v.and_(v.gt(par['m_b'], t[5]), v.gt(t[6], par['m_b'])))
    mu = v.real('mu', pos=True, dom=(0.5, 1.5))

    def conv(MS, Nf, asM, Mu, nl):
        return v.uf('kin', MS, Nf, asM, Mu, nl)
    v.setattr(ms, 'mMS2mKS', conv)
    v.ensure('kinetic mass', v.eq(running.get_mb_KS(par, mu), conv(par['m_b'], 4, QCD(v).alpha_s(par['m_b'], 5, par['alpha_s']), mu, 3)))
