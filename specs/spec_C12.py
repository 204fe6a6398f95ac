"""C12 CKM matrix"""
import cmath
import math
import numpy as np
from vf.api import harness
from vf.phys import ckm_contract
import flavio
from flavio.physics import ckm
from flavio.physics.common import conjugate_par
import ckmutil.ckm
from flavio.config import config

P = 'flavio.physics.ckm.'
UP, DN = 'uct', 'dsb'


def unit(v, V, tag='', tol=1e-6):
    A = V @ V.conj().T
    Bm = V.conj().T @ V
    for i in range(3):
        for j in range(3):
            v.ensure('%sVV+[%d%d]' % (tag, i, j), v.eq(A[i, j], 1 if i == j else 0, scale=1, tol=tol))
            v.ensure('%sV+V[%d%d]' % (tag, i, j), v.eq(Bm[i, j], 1 if i == j else 0, scale=1, tol=tol))


def phaseconv(v, V):
    """standard phase convention: V_ud, V_us, V_cb, V_tb real"""
    for i, j in ((0, 0), (0, 1), (1, 2), (2, 2)):
        v.ensure('Im V[%d%d]=0' % (i, j), v.eq(V[i, j].imag, 0, scale=1))


@harness('C12', targets=[P + 'ckm_standard', P + '_func_standard', P + 'get_ckm'])
def standard(v):
    t12, t13, t23 = (v.real(n, 0, 1.57) for n in ('t12', 't13', 't23'))
    d = v.real('delta')
    V = ckm.ckm_standard(t12, t13, t23, d)
    unit(v, V)
    phaseconv(v, V)
    v.ensure('s13', v.eq(abs(V[0, 2])**2, v.fsin(t13)**2))
    v.ensure('s12', v.eq(abs(V[0, 1]), v.fcos(t13)*v.fsin(t12)) if not v.sym else v.eq(V[0, 1].real, v.fcos(t13)*v.fsin(t12)))
    v.ensure('s23', v.eq(V[1, 2].real, v.fcos(t13)*v.fsin(t23)))
    Vc = ckm.ckm_standard(t12, t13, t23, -d)
    v.ensure('conj', v.eq(Vc, V.conj(), scale=1))
    J = (V[0, 1]*V[1, 2]*V[0, 2].conjugate()*V[1, 1].conjugate()).imag
    jj = (v.fsin(t12)*v.fcos(t12)*v.fsin(t23)*v.fcos(t23)*v.fsin(t13)*v.fcos(t13)**2*v.fsin(d))
    v.ensure('Jarlskog', v.eq(J, jj, scale=1e-3))


def inputs(v):
    us, ub, cb, g = (v.real('Vus', pos=True, dom=(0.1, 0.4)), v.real('Vub', pos=True, dom=(0.001, 0.01)),
                     v.real('Vcb', pos=True, dom=(0.01, 0.08)), v.real('gamma', dom=(-3, 3)))
    # the inputs are moduli of elements of a unitary matrix
    v.assume_(ub < 1)
    v.assume_(ub**2 < 1)
    v.assume_(us**2 + ub**2 < 1)
    v.assume_(cb**2 + ub**2 < 1)
    return us, ub, cb, g


@harness('C12', targets=[P + 'ckm_tree'])
def tree_unitary(v):
    """unitary in the standard phase convention, and the tree-level inputs are reproduced"""
    Vus, Vub, Vcb, gam = inputs(v)
    V = ckm.ckm_tree(Vus, Vub, Vcb, gam)
    phaseconv(v, V)
    v.ensure('|Vub|', v.eq(abs(V[0, 2])**2, Vub**2))
    v.ensure('Vus', v.eq(V[0, 1].real, Vus))
    v.ensure('Vcb', v.eq(V[1, 2].real, Vcb))
    unit(v, V)


@harness('C12', targets=[P + 'ckm_tree', P + 'get_ckmangle_gamma'])
def tree_gamma(v):
    """gamma is the unitarity-triangle angle arg(-V_ud V_ub* / V_cd V_cb*), for either sign and any quadrant"""
    Vus, Vub, Vcb, gam = inputs(v)
    V = ckm.ckm_tree(Vus, Vub, Vcb, gam)
    z = -V[0, 0]*V[0, 2].conjugate()*(V[1, 0]*V[1, 2].conjugate()).conjugate()
    # z = r e^{i gamma}, r > 0
    i = v.i()
    w = z * (v.fcos(gam) - i*v.fsin(gam))
    v.ensure('arg', v.eq(w.imag, 0, scale=abs(w)))


@harness('C12', targets=[P + 'ckm_tree', 'flavio.physics.common.conjugate_par', P + 'get_ckm', P + '_func_tree'])
def tree_conjugation(v):
    """flipping the CP-odd parameters exactly conjugates the matrix"""
    par = v.par()
    V = ckm.get_ckm(par)
    Vc = ckm.get_ckm(conjugate_par(par))
    v.ensure('V*', v.eq(Vc, V.conj(), tol=1e-9, scale=1e-3))


def odd_even(v, pre, even, odd):
    """dependency contract of ckmutil: angles even, phase odd under a simultaneous sign flip of `odd`"""
    neg = all(x.t.op == '*' and x.t.args[0].op == 'c' and x.t.args[0].args[0] == -1 for x in odd)
    o = tuple(-x for x in odd) if neg else odd
    a = angles(v, pre, *even, *o)
    return a[:3] + ((-a[3]) if neg else a[3],)


def angles(v, pre, *args):
    return tuple(v.uf('%s.%s' % (pre, n), *args, dom=(0, 1.5)) for n in ('t12', 't13', 't23', 'delta'))


@harness('C12', targets=[P + 'ckm_wolfenstein', P + 'ckm_beta_gamma'],
         uses=['ckmutil.ckm.wolfenstein_to_standard', 'ckmutil.ckm.beta_gamma_to_standard'])
def other_parametrizations_unitary(v):
    """Wolfenstein and beta-gamma matrices are the standard matrix of some angles, hence unitary"""
    if v.sym:
        v.contract(ckmutil.ckm.wolfenstein_to_standard, lambda *a: angles(v, 'wolf', *a))
        v.contract(ckmutil.ckm.beta_gamma_to_standard, lambda *a: angles(v, 'bg', *(a[:4])))
    laC, A, rb, eb = v.real('laC', pos=True, dom=(0.1, 0.4)), v.real('A', pos=True, dom=(0.6, 1)), v.real('rhobar', dom=(-0.5, 0.5)), v.real('etabar', dom=(-0.5, 0.5))
    Vus, Vcb = v.real('Vus', pos=True, dom=(0.1, 0.4)), v.real('Vcb', pos=True, dom=(0.01, 0.08))
    be, ga = v.real('beta', dom=(0.2, 0.6)), v.real('gamma', dom=(0.5, 1.5))
    for n, V in (('W ', ckm.ckm_wolfenstein(laC, A, rb, eb)), ('bg ', ckm.ckm_beta_gamma(Vus, Vcb, be, ga))):
        unit(v, V, n)
        phaseconv(v, V)


@harness('C12', targets=[P + 'ckm_wolfenstein', 'flavio.physics.common.conjugate_par', P + '_func_wolfenstein', P + 'get_ckm'],
         uses=['ckmutil.ckm.wolfenstein_to_standard'])
def wolfenstein_conjugation(v):
    if v.sym:
        v.contract(ckmutil.ckm.wolfenstein_to_standard, lambda laC, A, rb, eb: odd_even(v, 'wolf', (laC, A, rb), (eb,)))
    laC, A, rb, eb = v.real('laC', pos=True, dom=(0.1, 0.4)), v.real('A', pos=True, dom=(0.6, 1)), v.real('rhobar', dom=(-0.5, 0.5)), v.real('etabar', dom=(-0.5, 0.5))
    v.assume_(laC < 1)
    v.assume_(A*laC**2 < 1)
    v.assume_(rb**2 + eb**2 != 0)
    old = config['implementation']
    cfg = dict(old, **{'CKM matrix': 'Wolfenstein'})
    config['implementation'] = cfg
    try:
        par = {'laC': laC, 'A': A, 'rhobar': rb, 'etabar': eb}
        V = ckm.get_ckm(par)
        Vc = ckm.get_ckm(conjugate_par(par))
    finally:
        config['implementation'] = old
    v.ensure('V*', v.eq(Vc, V.conj(), tol=1e-9, scale=1e-3))


@harness('C12', targets=[P + 'ckm_beta_gamma', 'flavio.physics.common.conjugate_par', P + '_func_beta_gamma', P + 'get_ckm'],
         uses=['ckmutil.ckm.beta_gamma_to_standard'])
def beta_gamma_conjugation(v):
    if v.sym:
        v.contract(ckmutil.ckm.beta_gamma_to_standard,
                   lambda Vus, Vcb, beta, gamma, o=None: odd_even(v, 'bg', (Vus, Vcb), (beta, gamma)))
    Vus, Vcb = v.real('Vus', pos=True, dom=(0.1, 0.4)), v.real('Vcb', pos=True, dom=(0.01, 0.08))
    be, ga = v.real('beta', dom=(0.2, 0.6)), v.real('gamma', dom=(0.5, 1.5))
    old = config['implementation']
    cfg = dict(old, **{'CKM matrix': 'beta gamma'})
    config['implementation'] = cfg
    try:
        par = {'Vus': Vus, 'Vcb': Vcb, 'beta': be, 'gamma': ga}
        V = ckm.get_ckm(par)
        Vc = ckm.get_ckm(conjugate_par(par))
    finally:
        config['implementation'] = old
    v.ensure('V*', v.eq(Vc, V.conj(), tol=1e-9, scale=1e-3))


def arbitraryV(v):
    if v.sym:
        ckm_contract(v)
    return v.par()


def polarV(v):
    """arbitrary nonzero entries r_ij exp(i phi_ij)"""
    if v.sym:
        V = np.empty((3, 3), dtype=object)
        i = v.i()
        for a in range(3):
            for b in range(3):
                r, ph = v.real('r%d%d' % (a, b), pos=True), v.real('phi%d%d' % (a, b))
                V[a, b] = r * (v.fcos(ph) + i*v.fsin(ph))
        v.contract(ckm.get_ckm, lambda par_dict: V)
    return v.par()


@harness('C12', targets=[P + 'xi', P + 'xi_kl_ij'], uses=[P + 'get_ckm'])
def xi_definition(v):
    """xi_a^{bc} = V_ab V_ac* / V_ba V_ca* for every quark combination"""
    par = arbitraryV(v)
    V = ckm.get_ckm(par)
    for a in range(3):
        for b in range(3):
            for c in range(3):
                v.ensure('up %s%s%s' % (UP[a], DN[b], DN[c]),
                         v.eq(ckm.xi(UP[a], DN[b]+DN[c])(par), V[a, b]*V[a, c].conjugate(), scale=1e-6))
                v.ensure('dn %s%s%s' % (DN[a], UP[b], UP[c]),
                         v.eq(ckm.xi(DN[a], UP[b]+UP[c])(par), V[b, a]*V[c, a].conjugate(), scale=1e-6))


@harness('C12', targets=[P + 'xi', P + 'ckm_standard', P + 'get_ckm', P + '_func_standard'])
def xi_unitarity(v):
    """unitarity triangles close: sum over the internal quark of xi vanishes (b != c) or is 1 (b = c)"""
    t12, t13, t23, d = (v.real(n) for n in ('t12', 't13', 't23', 'delta'))
    old = config['implementation']
    config['implementation'] = dict(old, **{'CKM matrix': 'Standard'})
    try:
        par = {'t12': t12, 't13': t13, 't23': t23, 'delta': d}
        for b in range(3):
            for c in range(3):
                s = sum(ckm.xi(q, DN[b]+DN[c])(par) for q in UP)
                v.ensure('down %s%s' % (DN[b], DN[c]), v.eq(s, 1 if b == c else 0, scale=1))
                s = sum(ckm.xi(q, UP[b]+UP[c])(par) for q in DN)
                v.ensure('up %s%s' % (UP[b], UP[c]), v.eq(s, 1 if b == c else 0, scale=1))
    finally:
        config['implementation'] = old


@harness('C12', targets=[P + 'get_ckmangle_alpha', P + 'get_ckmangle_beta', P + 'get_ckmangle_gamma'], uses=[P + 'get_ckm'])
def angles_sum(v):
    """alpha + beta + gamma = pi (mod 2 pi), for the angles of any CKM matrix, and each is the phase of
    its PDG ratio"""
    par = polarV(v)
    a, b, g = ckm.get_ckmangle_alpha(par), ckm.get_ckmangle_beta(par), ckm.get_ckmangle_gamma(par)
    i = v.i()
    e = 1
    for x in (a, b, g):
        e = e * (v.fcos(x) + i*v.fsin(x))
    v.ensure('sum', v.eq(e, -1 + 0*i))
    V = ckm.get_ckm(par)
    za = -V[2, 0]*V[2, 2].conjugate()/(V[0, 0]*V[0, 2].conjugate())
    zb = -V[1, 0]*V[1, 2].conjugate()/(V[2, 0]*V[2, 2].conjugate())
    zg = -V[0, 0]*V[0, 2].conjugate()/(V[1, 0]*V[1, 2].conjugate())
    for n, x, z in (('alpha', a, za), ('beta', b, zb), ('gamma', g, zg)):
        v.ensure(n, v.eq(abs(z)*(v.fcos(x) + i*v.fsin(x)), z, scale=abs(z)))


@harness('C12', targets=[P + 'get_ckmangle_alpha', P + 'get_ckmangle_beta', P + 'get_ckmangle_gamma',
                         'flavio.physics.common.conjugate_par'], uses=[P + 'get_ckm'])
def angles_cp_odd(v):
    par = arbitraryV(v)
    cp = conjugate_par(par)
    for n, f in (('alpha', ckm.get_ckmangle_alpha), ('beta', ckm.get_ckmangle_beta), ('gamma', ckm.get_ckmangle_gamma)):
        x, y = f(par), f(cp)
        v.ensure('sin ' + n, v.eq(v.fsin(y), -v.fsin(x), scale=1))
        v.ensure('cos ' + n, v.eq(v.fcos(y), v.fcos(x), scale=1))


@harness('C12', targets=['flavio.physics.common.conjugate_par'])
def conjugate_par_involution(v):
    par = v.par()
    par['etabar'] = v.real('etabar')
    par['beta'] = v.real('beta')
    par['delta'] = v.real('delta')
    c = conjugate_par(par)
    cc = conjugate_par(c)
    odd = ('gamma', 'delta', 'etabar', 'beta')
    for k in list(par):
        v.ensure('involution', v.eq(cc[k], par[k]))
        if k in odd:
            v.ensure('odd ' + k, v.eq(c[k], -par[k]))
        else:
            v.ensure('even', v.eq(c[k], par[k]))
    v.ensure('same keys', set(c) == set(par))
