"""planted bugs (source of seeded/)"""
SEEDS = []


def S(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


PRE = '''
import sys, math, cmath
import numpy as np
import flavio
par = flavio.default_parameters.get_central_all()
def check(ok, msg):
    if not ok:
        print('FAIL', msg); sys.exit(1)
'''

S('ckm-betagamma-negative-beta', 'C12',
  [('flavio/physics/ckm.py', '    return ckmutil.ckm.ckm_beta_gamma(Vus, Vcb, beta, gamma)',
    '    # beta is only determined up to a sign by the apex height\n    return ckmutil.ckm.ckm_beta_gamma(Vus, Vcb, abs(beta), gamma)')],
  "configuration 'CKM matrix' = 'beta gamma' and a negative value of beta, as it occurs in every CP-conjugate prediction",
  'flipping all CP-odd CKM parameters no longer conjugates the CKM matrix',
  PRE + '''
from flavio.physics import ckm
from flavio.physics.common import conjugate_par
flavio.config['implementation']['CKM matrix'] = 'beta gamma'
p = dict(par, beta=0.38)
V = ckm.get_ckm(p)
Vc = ckm.get_ckm(conjugate_par(p))
check(np.allclose(Vc, V.conj(), rtol=1e-6, atol=1e-9), abs(Vc - V.conj()).max())
''')

S('mixing-width-sign', 'C15',
  [('flavio/physics/mesonmixing/observables.py', '    DM = common.DeltaM(M12, G12)\n    if DM > 0:', '    if common.DeltaM(M12, 0j) > 0:')],
  'an absorptive amplitude comparable to the dispersive one (|Gamma12| > 2|M12| at suitable relative phase)',
  'DeltaGamma no longer refers to the state that is heavier',
  PRE + '''
from flavio.physics.mesonmixing import observables as o
import random
random.seed(3)
for _ in range(200):
    M, G = complex(random.gauss(0, 1), random.gauss(0, 1)), complex(random.gauss(0, 2), random.gauss(0, 2))
    o.get_M12_G12 = lambda wc, par, meson: (M, G)
    dm, dg = o.DeltaM_positive(None, par, 'Bs'), o.DeltaGamma_B(None, par, 'Bs')
    ref = -4*(M*G.conjugate()).real
    check(abs(dm*dg - ref) < 1e-6*(abs(M)**2 + abs(G)**2), (M, G, dm*dg, ref))
''')

S('gammahad-fv-symmetric', 'C16',
  [('flavio/physics/zdecays/gammaz.py', "    Gu =  sum([GammaZ(wc_obj, par, q1, q2) for q1 in 'uc' for q2 in 'uc'])",
    "    # off-diagonal widths come in pairs\n    Gu =  sum([GammaZ(wc_obj, par, q, q) for q in 'uc']) + 2 * GammaZ(wc_obj, par, 'u', 'u')*0\n    Gu += GammaZ(wc_obj, par, 'u', 'c')")],
  'a flavour-violating Z coupling to up-type quarks (e.g. phiq1_12 or phiu_12)',
  'the hadronic Z width misses half of the flavour-violating up-type width',
  PRE + '''
from flavio.physics.zdecays import gammaz
from wilson import Wilson
w = flavio.WilsonCoefficients()
w.set_initial({'phiu_12': 2e-7}, 91.1876, 'SMEFT', 'Warsaw')
tot = gammaz.Gammahad(w, par)
ref = sum(gammaz.GammaZ(w, par, a, b) for qs in ('uc', 'dsb') for a in qs for b in qs)
check(abs(tot/ref - 1) < 1e-9, (tot, ref))
''')

S('pull-fractional-dof', 'C08',
  [('flavio/statistics/functions.py', "    chi2_ndof = scipy.stats.chi2(dof)\n    cl_delta_chi2 =", "    chi2_ndof = scipy.stats.chi2(max(round(dof), 1))\n    cl_delta_chi2 =")],
  'a non-integer effective number of degrees of freedom',
  'the pull is no longer the inverse of delta_chi2',
  PRE + '''
from flavio.statistics.functions import pull, delta_chi2
for dof in (1, 2, 3, 0.5, 1.5, 2.5, 3.7):
    for n in (0.5, 1, 2, 3):
        p = pull(delta_chi2(n, dof), dof)
        check(abs(p - n) < 1e-5, (n, dof, p))
''')

S('tensor-equal-mass-shortcut', 'C13',
  [('flavio/physics/bdecays/angular.py', "        +2 * sqrt(2)/q2 * (ml1**2-ml2**2) * _Re(H['pl','T'] * CH['pl','Tt']-H['mi','T'] * CH['mi','Tt'])\n        +2 * (ml1+ml2)/sqrt(q2) * _Im(H['pl','A'] * CH['pl','Tt']",
    "        +2 * sqrt(2)/q2 * abs(ml1**2-ml2**2) * _Re(H['pl','T'] * CH['pl','Tt']-H['mi','T'] * CH['mi','Tt'])\n        +2 * (ml1+ml2)/sqrt(q2) * _Im(H['pl','A'] * CH['pl','Tt']")],
  'two different lepton masses, the second one larger, and both tensor amplitudes non-zero',
  'the angular distribution is no longer a squared amplitude (exchanging the two leptons does not reflect it)',
  PRE + '''
from flavio.physics.bdecays import angular as a
import random
random.seed(2)
z = lambda: complex(random.gauss(0, 1), random.gauss(0, 1))
# only tensor amplitudes: exchanging the lepton masses is the reflection cos(theta) -> -cos(theta), so 6s flips
for _ in range(30):
    H = {k: 0j for k in ('S', 'P')}
    for h in ('pl', 'mi', '0'):
        H[h, 'V'] = H[h, 'A'] = 0j
        H[h, 'T'], H[h, 'Tt'] = z(), z()
    q2, m1, m2 = 9., 0.3, 1.4
    J1 = a.angularcoeffs_general_v(H, q2, 5.28, 0.9, 4.2, 0., m1, m2)
    J2 = a.angularcoeffs_general_v(H, q2, 5.28, 0.9, 4.2, 0., m2, m1)
    check(abs(J1['1s'] - J2['1s']) < 1e-10*abs(J1['1s']), 'even part')
    check(abs(J1['6s'] + J2['6s']) < 1e-9*abs(J1['1s']), ('odd part', J1['6s'], J2['6s']))
''')

S('phi-binning-odd-term', 'C18',
  [('flavio/physics/bdecays/bvlnu.py', "    return {'1': phi, 'c2': sin(2*phi)/2., 's2': -cos(2*phi)/2.}", "    return {'1': phi, 'c2': sin(2*phi)/2., 's2': sin(phi)**2}"),
   ('flavio/physics/bdecays/bvlnu.py', "            's2': 1/(2*pi) * J[9] }", "            's2': -1/(2*pi) * J[9] }")],
  'a complex new-physics coefficient (CP-violating J9) in an azimuthal distribution',
  'the azimuthal distribution has the wrong sign of its T-odd part',
  PRE + '''
from flavio.physics.bdecays import bvlnu
from math import pi
J = {k: 0.1 for k in ('1s', '1c', '2s', '2c', '6s', '6c', 3, 4, 5, 7, 8)}
J[9] = 0.3
def full(cl, cV, phi):
    sl2, sV2 = 1 - cl**2, 1 - cV**2
    return 9/32/pi*(J['1s']*sV2 + J['1c']*cV**2 + (J['2s']*sV2 + J['2c']*cV**2)*(2*cl**2 - 1) + J[3]*sV2*sl2*math.cos(2*phi)
                    + (J['6s']*sV2 + J['6c']*cV**2)*cl + J[9]*sV2*sl2*math.sin(2*phi))
x, w = np.polynomial.legendre.leggauss(4)
d, a = bvlnu.dG_dq2_dphi(J), bvlnu._angle_diff
for phi in (0.3, 1.1, 2.7, 4.):
    ref = sum(w1*w2*full(x1, x2, phi) for x1, w1 in zip(x, w) for x2, w2 in zip(x, w))
    got = sum(y*a(phi)[k] for k, y in d.items())
    check(abs(got - ref) < 1e-9, (phi, got, ref))
''')

S('taupnu-conjugate-isospin', 'C18',
  [('flavio/physics/taudecays/taupnu.py', "    if lep == 'tau':\n        # for the SM", "    if lep == 'tau' and wc['CVL_' + qqlnu] == wc['CVL_' + qqlnu].real:\n        # for the SM")],
  'a new-physics coefficient CVL with a non-zero phase in tau -> P nu',
  'the SM contribution and its interference are lost',
  PRE + '''
w = flavio.WilsonCoefficients()
w.set_initial({'CVL_dutaunutau': 1e-7j}, 1.77, 'WET-4', 'flavio')
sm = flavio.sm_prediction('BR(tau->pinu)')
np_ = flavio.np_prediction('BR(tau->pinu)', w)
check(abs(np_/sm - 1) < 1e-3, (np_, sm))
''')

S('lepton-ratio-denominator', 'C18',
  [('flavio/physics/bdecays/bvlnu.py', "    den = BR_tot(wc_obj, par, B, V, lden, A)\n    return num/den\n\ndef BR_tot_leptonflavour_function",
    "    den = BR_tot(wc_obj, par, B, V, lden.replace('l', 'e'), A)\n    return num/den\n\ndef BR_tot_leptonflavour_function")],
  'lepton flavour non-universality between electrons and muons in the observable normalised to the average of both',
  'R(D*) is normalised to the electron mode only',
  PRE + '''
w = flavio.WilsonCoefficients()
w.set_initial({'CVL_bcmunumu': 0.5}, 4.8, 'WET', 'flavio')
r = flavio.np_prediction('Rtaul(B->D*lnu)', w)
t, e, m = (flavio.np_prediction('BR(B0->D*%snu)' % l, w) for l in ('tau', 'e', 'mu'))
check(abs(r*(e + m)/2/t - 1) < 1e-4, (r, 2*t/(e + m)))
''')

S('logprob-override-inside-multivariate', 'C04',
  [('flavio/classes.py', """                    exclude = tuple(i for i, p in enumerate(parameters)
                                    if p not in p_cons)
                if not delta:
                    prob_dict[constraint] = constraint.logpdf(x, exclude=exclude)""",
    """                    exclude = tuple(i for i, p in enumerate(parameters)
                                    if p in exclude_parameters)
                    exclude = exclude or tuple(range(len(x), len(parameters)))
                if not delta:
                    prob_dict[constraint] = constraint.logpdf(x, exclude=exclude)""")],
  'a parameter of a correlated constraint gets its own constraint later, and it is not the last one',
  'the remaining parameters are evaluated with the density of other ones',
  PRE + '''
from flavio.statistics.probability import MultivariateNormalDistribution as M, NormalDistribution as N
c = flavio.classes.Constraints()
cov = np.array([[1., .3, .1], [.3, 4., -.5], [.1, -.5, 9.]])
m = M([1., 20., 300.], cov)
c.add_constraint(['a', 'b', 'c'], m)
c.add_constraint(['a'], N(5., 2.))
p = c.get_logprobability_all({'a': 5.5, 'b': 21., 'c': 301.})
tot = sum(p.values())
ref = N(5., 2.).logpdf(5.5) + M([20., 300.], cov[1:, 1:]).logpdf([21., 301.])
check(abs(tot - ref) < 1e-9, (tot, ref))
p = c.get_logprobability_all({'a': 5.5, 'b': 21., 'c': 301.}, exclude_parameters=['b'])
check(abs(sum(p.values()) - N(5., 2.).logpdf(5.5) - N(300., 3.).logpdf(301.)) < 1e-9, 'excluded')
''')

S('combine-position-after-override', 'C07',
  [('flavio/functions.py', """        num, constraint = m._parameters[obs]
        if not np.isscalar(constraint.central_value):
            _n_multivariate += 1""",
    """        constraint = m._parameters[obs][1]
        if not np.isscalar(constraint.central_value):
            # position among the observables sharing the constraint
            num = [o for o in m.all_parameters if m._parameters[o][1] is constraint].index(obs)
            _n_multivariate += 1""")],
  'an observable of a correlated measurement whose predecessor in the list was given another constraint',
  'the value of another observable is returned',
  PRE + '''
from flavio.statistics.probability import MultivariateNormalDistribution as M, NormalDistribution as N
m = flavio.Measurement('planted test measurement')
names = ['BR(Bs->mumu)', 'BR(B0->mumu)', 'BR(Bs->ee)']
keep = dict(flavio.Measurement.instances)
flavio.Measurement.instances.clear()
flavio.Measurement.instances['planted test measurement'] = m
m.add_constraint(names, M([1., 20., 300.], np.diag([1., 4., 9.])))
m.add_constraint(names[:1], N(7., 1.))
vals = [flavio.combine_measurements(n).central_value for n in names]
flavio.Measurement.instances.clear(); flavio.Measurement.instances.update(keep)
check(np.allclose(np.ravel(vals), [7., 20., 300.]), vals)
''')

S('likelihood-shared-distribution', 'C05',
  [('flavio/statistics/likelihood.py', '        ll = 0.\n        for measurement in self.get_measurements:', '        probs = {}\n        for measurement in self.get_measurements:'),
   ('flavio/statistics/likelihood.py', '            ll += sum(prob_dict.values())\n        return ll', '            probs.update(prob_dict)\n        return sum(probs.values(), 0.)')],
  'one and the same distribution object used in two measurements of an observable',
  'the second measurement is not counted',
  PRE + '''
from flavio.statistics.probability import NormalDistribution as N
from flavio.statistics.likelihood import MeasurementLikelihood
d = N(3., 1.)
for i in (1, 2):
    flavio.Measurement('planted test %d' % i).add_constraint(['BR(Bs->mumu)'], d)
names = ['planted test 1', 'planted test 2']
ll = MeasurementLikelihood(['BR(Bs->mumu)'], include_measurements=names)
got = ll.log_likelihood_pred({'BR(Bs->mumu)': 3.7})
for n in names:
    del flavio.Measurement[n]
check(abs(got - 2*d.logpdf(3.7)) < 1e-9, (got, d.logpdf(3.7)))
''')

S('initial-values-updated-in-place', 'C06',
  [('flavio/physics/eft.py', '        super().__init__(wcdict=wc_dict, scale=scale, eft=eft, basis=basis)',
    """        if self.wc is not None and (self.wc.scale, self.wc.eft, self.wc.basis) == (scale, eft, basis) \\
                and wc_dict and set(self.wc.dict) == set(wc_dict):
            # same setup: only the values change
            self.wc.values = wcxf.WC(eft, basis, scale, wcxf.WC.dict2values(wc_dict)).values
            return
        super().__init__(wcdict=wc_dict, scale=scale, eft=eft, basis=basis)""")],
  'an instance whose coefficients were already evaluated gets new values of the same coefficients at the same scale',
  'predictions of the earlier values are returned',
  PRE + '''
w = flavio.WilsonCoefficients()
def fresh(x):
    w = flavio.WilsonCoefficients(); w.set_initial(x, 160); return w
for x in (-1., 0.4, 1.1):
    w.set_initial({'C10_bsmumu': x}, 160)
    a, b = flavio.np_prediction('BR(Bs->mumu)', w), flavio.np_prediction('BR(Bs->mumu)', fresh({'C10_bsmumu': x}))
    check(abs(a - b) < 1e-6*b, (x, a, b))
''')

S('citations-after-exception', 'C10',
  [('flavio/citations.py', '        flavio.citations = self._citations_global', '        if type is None:\n            flavio.citations = self._citations_global')],
  'an exception inside a block collecting citations',
  'papers used later are collected in the abandoned list and missing from the global one',
  PRE + '''
flavio.citations.reset()
g = flavio.citations
try:
    with flavio.citations.collect() as c:
        flavio.sm_prediction('no such observable')
except KeyError:
    pass
check(flavio.citations is g, 'global list is not the abandoned one')
flavio.citations.register('Descotes-Genon:2015hea')
check('Descotes-Genon:2015hea' in g.set, 'registered')
''')

S('klong-lfv-vector-sign', 'C14',
  [('flavio/physics/kdecays/kll.py', '    S = (ml2 - ml1)/mK * C9m  + mK * CSm  # neglecting mu, md', '    S = abs(ml2 - ml1)/mK * C9m  + mK * CSm  # neglecting mu, md')],
  'lepton flavour violating vector coefficients of both charge assignments',
  'the K0 and anti-K0 contributions interfere with the wrong sign',
  PRE + '''
from flavio.physics import ckm
xi = ckm.xi('t', 'sd')(par)
z = 1e3*(0.7 + 0.4j)
def br(K, **c):
    w = flavio.WilsonCoefficients(); w.set_initial(c, flavio.config['renormalization scale']['kdecays'])
    return flavio.np_prediction('BR(%s->emu,mue)' % K, w)
one = br('KS', C9_sdemu=z/xi)
both = br('KS', C9_sdemu=z/xi, C9_sdmue=z.conjugate()/xi)
check(one > 0 and both < 1e-6*one, (one, both))
''')

S('trident-coherent-flavours', 'C20',
  [('flavio/physics/neutrinos/trident.py', '    sigma_tot = abs(CA_m)**2 + abs(CV_m)**2 + abs(CA_NP_e)**2 + abs(CV_NP_e)**2 + abs(CA_NP_t)**2 + abs(CV_NP_t)**2',
    '    sigma_tot = abs(CA_m)**2 + abs(CV_m)**2 + abs(CA_NP_e + CA_NP_t)**2 + abs(CV_NP_e + CV_NP_t)**2')],
  'new physics with both electron and tau neutrinos in the final state',
  'final states with different neutrino flavours interfere',
  PRE + '''
def R(**c):
    w = flavio.WilsonCoefficients(); w.set_initial(c, 1, eft='WET-3', basis='flavio'); return flavio.np_prediction('R_trident', w)
a, b = R(CVLL_nuenumumumu=0.3), R(CVLL_numunutaumumu=0.2)
ab = R(CVLL_nuenumumumu=0.3, CVLL_numunutaumumu=0.2)
check(abs(ab - 1 - (a - 1) - (b - 1)) < 1e-9, (a, b, ab))
''')

S('bvgamma-charm-loop-phase', 'C21',
  [('flavio/physics/bdecays/bvgamma.py', """    if cp_conjugate:
        wc = conjugate_wc(wc)
    delta_C7 = flavio.physics.bdecays.matrixelements.delta_C7(par=par, wc=wc, q2=0, scale=scale, qiqj=bq)
""", """    delta_C7 = flavio.physics.bdecays.matrixelements.delta_C7(par=par, wc=wc, q2=0, scale=scale, qiqj=bq)
    if cp_conjugate:
        wc = conjugate_wc(wc)
""")],
  'complex new physics in the chromomagnetic coefficient',
  'the weak phase of the loop contribution is not reversed in the conjugate radiative decay',
  PRE + '''
from flavio.physics.bdecays import bvgamma
from flavio.physics.common import conjugate_par
def w(x):
    w = flavio.WilsonCoefficients(); w.set_initial({'C8_bs': x}, 4.8); return w
z = -0.2 + 0.7j
a = bvgamma.amps_ff(w(z), par, 'B0', 'K*0', cp_conjugate=True)
b = bvgamma.amps_ff(w(z.conjugate()), conjugate_par(par), 'B0', 'K*0', cp_conjugate=False)
check(abs(a['L'] - b['L']) < 1e-3*abs(b['L']), (a['L'], b['L']))
''')

S('bs-phi-scalar-cp-parity', 'C19',
  [('flavio/physics/bdecays/bvll/observables_bs.py', "    h_tilde['S'] = -h_bar['S']\n", "    h_tilde['S'] = h_bar['S']\n")],
  'scalar new physics in Bs -> phi l l together with the width difference',
  'the scalar amplitude has the wrong CP parity in the time-integrated rate',
  PRE + '''
from flavio.physics.bdecays.bvll import observables_bs as o
from flavio.physics.bdecays import angular
h = {k: 0j for k in [('0','V'),('0','A'),('pl','V'),('pl','A'),('mi','V'),('mi','A'),('0','T'),('0','Tt'),('pl','T'),('pl','Tt'),('mi','T'),('mi','Tt'),('t','T'),('t','Tt')]}
h.update({'S': 1+0j, 'P': 0j})
flavio.physics.bdecays.bvll.amplitudes.helicity_amps = lambda *a: dict(h)
flavio.physics.bdecays.bvll.amplitudes.helicity_amps_bar = lambda *a: dict(h)
flavio.physics.mesonmixing.observables.q_over_p = lambda *a: -1
y = 0.3
f = lambda y: flavio.Observable['dBR/dq2(Bs->phimumu)'].prediction_par(dict(par, **{'DeltaGamma/Gamma_Bs': 2*y}), None, 2.)
check(abs(f(y)/f(0)*(1 - y**2)/(1 + y) - 1) < 1e-6, (f(y)/f(0)))
''')

S('charged-tail-conjugate-scalar', 'C22',
  [('flavio/physics/dileptons/pplnu.py', "    wc['CSRL_enuud'] = np.einsum('jilk',np.conjugate(C['ledq']))", "    wc['CSRL_enuud'] = np.einsum('jikl',np.conjugate(C['ledq']))")],
  'a scalar leptoquark coefficient with two different quark flavours',
  'the contribution goes to the transposed quark transition and is weighted with the wrong parton luminosity',
  PRE + '''
import wilson
from flavio.physics.dileptons import pplnu
w = flavio.WilsonCoefficients()
w.set_initial({'ledq_1112': 1e-8}, 1000, 'SMEFT', 'Warsaw up')
C = pplnu.wceff_qqlnu_np(w, par, 1000)['CSRL_enuud'][0, 0]
# h.c. of (nubar e)(dbar_1 u_2): (ebar nu)(cbar d)
check(abs(C[1, 0] - 1e-8) < 1e-10 and abs(C[0, 1]) < 1e-10, C)
''')
