"""C05 likelihoods are sums over the selected measurements and parameters; predictions depend on their arguments only"""
import itertools
import numpy as np
from vf.api import harness
from vf.stubs import Dist, density, fresh_registry, WC, observable, predicted
import flavio
from flavio.classes import Measurement, Observable, Parameter, ParameterConstraints
from flavio.statistics import likelihood as lh
from flavio.statistics import probability as pr

L_ = 'flavio.statistics.likelihood.'


def world(v):
    """three observables, one with an argument; single, joint, unrelated and pseudo measurements"""
    fresh_registry(v)
    observable(v, 'o1')
    observable(v, 'o2')
    observable(v, 'o3', ['q2'])
    q = v.real('q2', pos=True, dom=(1, 6))
    t = ('o3', q)
    meas = {'m1': [['o1']], 'm2': [['o2', 'o1']], 'm3': [[t], ['o2']], 'm4': [['z1', 'z2']], 'm5': [['z1', t]], 'm6': [['o2']], 'Pseudo-measurement x': [['o1']]}
    dists = {}
    for name, cons in meas.items():
        m = Measurement(name)
        for i, obs in enumerate(cons):
            k = tag(name, i)
            dists[k] = dists.get(k) or Dist(v, k, len(obs))
            m.add_constraint(list(obs), dists[k])
    return meas, t


def tag(name, i):
    """m6 was entered with the same distribution object as m3's second constraint"""
    return 'm31' if name == 'm6' else '%s%d' % (name, i)


def selected(meas, obs, include, exclude, pseudo):
    out = []
    for n, cons in meas.items():
        if n.startswith('Pseudo') and not pseudo:
            continue
        if not any(o in obs for c in cons for o in c):
            continue
        if include is not None and n not in include or exclude is not None and n in exclude:
            continue
        out.append(n)
    return out


def total(v, meas, names, obs, excl, value, kind):
    """sum of the log densities of the observables in the fit, everything else dropped"""
    tot = 0
    for n in names:
        for i, c in enumerate(meas[n]):
            live = [j for j, o in enumerate(c) if o in obs and o not in excl]
            if live:
                tot = tot + density(v, kind, tag(n, i), live, [value[c[j]] for j in live])
    return tot


def pick(v, t):
    obs = {'1': ['o1'], '2': ['o2'], '12': ['o1', 'o2'], '3': [t], '321': [t, 'o2', 'o1']}[v.choice('observables', ['1', '2', '12', '3', '321'])]
    sel = {'all': (None, None, False), 'include': (['m1', 'm3', 'm4', 'm6'], None, False), 'exclude': (None, ['m1', 'm5', 'm4'], False), 'pseudo': (None, None, True),
           'pseudo only': (['Pseudo-measurement x'], None, True)}[v.choice('selection', ['all', 'include', 'exclude', 'pseudo', 'pseudo only'])]
    return obs, sel


@harness('C05', targets=[L_ + 'MeasurementLikelihood.__init__', L_ + 'MeasurementLikelihood.get_measurements', L_ + 'MeasurementLikelihood.log_likelihood_par',
                         L_ + 'MeasurementLikelihood.log_likelihood_pred', L_ + 'MeasurementLikelihood.get_number_observations'],
         uses=['flavio.classes.Constraints.get_logprobability_all'], level='bounded', note='seven measurements of up to 5 observables', max_paths=60)
def measurement_likelihood(v):
    """the likelihood is the product over the selected measurements of the densities of the observables in the fit"""
    meas, t = world(v)
    obs, (inc, exc, pseudo) = pick(v, t)
    names = selected(meas, obs, inc, exc, pseudo)
    covered = all(any(o in c for n in names for c in meas[n]) for o in obs)
    try:
        L = lh.MeasurementLikelihood(list(obs), include_measurements=inc, exclude_measurements=exc, include_pseudo_measurements=pseudo)
    except AssertionError:
        v.ensure('only unconstrained observables are rejected', not covered)
        return
    v.ensure('unconstrained observables are rejected', covered)
    v.ensure('measurements', sorted(L.get_measurements) == sorted(names))
    par, w = {'p': v.real('p'), 'q': v.real('q')}, v.real('w')
    val = {o: predicted(v, o, par, w) for o in obs}
    pred = L.get_predictions_par(par, WC(w))
    v.ensure('predictions', set(pred) == set(obs) and v.and_(*[v.eq(pred[o], val[o]) for o in obs]))
    for excl in (None, ['o1'], [t, 'other'], ['o1', 'o2', t]):
        e = excl or []
        for delta, kind in ((False, 'logp'), (True, 'dlogp')):
            want = total(v, meas, names, obs, e, val, kind)
            v.ensure('likelihood of predictions', v.eq(L.log_likelihood_pred(dict(val), exclude_observables=excl, delta=delta), want, scale=5))
            v.ensure('likelihood of parameters', v.eq(L.log_likelihood_par(dict(par), WC(w), exclude_observables=excl, delta=delta), want, scale=5))
        v.ensure('number of observations', L.get_number_observations(exclude_observables=excl) ==
                 sum(1 for n in names for c in meas[n] for o in c if o in obs and o not in e))
    v.ensure('default', v.eq(L.log_likelihood_par(dict(par), WC(w)), total(v, meas, names, obs, [], val, 'logp'), scale=5))


@harness('C05', targets=[L_ + 'MeasurementLikelihood.__init__'], level='bounded', note='one choice of lists')
def contradictory_selection(v):
    """including and excluding measurements at the same time is an error"""
    world(v)
    try:
        lh.MeasurementLikelihood(['o1'], include_measurements=['m1'], exclude_measurements=['m2'])
        ok = False
    except ValueError:
        ok = True
    v.ensure('rejected', ok)


def prior(v):
    po = ParameterConstraints()
    for k, names in (('u', ['p']), ('v', ['q', 'r']), ('w', ['s'])):
        po.add_constraint(list(names), Dist(v, k, len(names)))
    return po, {'p': ('u', 0), 'q': ('v', 0), 'r': ('v', 1), 's': ('w', 0)}


def prior_total(v, pars, x, kind):
    tot = 0
    for k, names in (('u', ['p']), ('v', ['q', 'r']), ('w', ['s'])):
        live = [i for i, n in enumerate(names) if n in pars]
        if live:
            tot = tot + density(v, kind, k, live, [x[names[i]] for i in live])
    return tot


PARS = [['p'], ['q'], ['r', 'p'], ['s', 'q', 'p', 'r']]


@harness('C05', targets=[L_ + 'ParameterLikelihood.__init__', L_ + 'ParameterLikelihood.log_likelihood_par', L_ + 'ParameterLikelihood.get_central', L_ + 'ParameterLikelihood.get_random'],
         level='bounded', note='four parameters', max_paths=20)
def parameter_likelihood(v):
    """only the chosen parameters contribute; central and random values come in the order of the parameters"""
    po, where = prior(v)
    pars = v.choice('parameters', PARS)
    L = lh.ParameterLikelihood(po, list(pars))
    x = {n: v.real('x_' + n) for n in 'pqrs'}
    for delta, kind in ((False, 'logp'), (True, 'dlogp')):
        v.ensure('likelihood', v.eq(L.log_likelihood_par(x, delta=delta), prior_total(v, pars, x, kind), scale=3))
    c, r = L.get_central, L.get_random
    v.ensure('shape', len(c) == len(r) == len(pars))
    for i, n in enumerate(pars):
        k, j = where[n]
        v.ensure('central', v.eq(c[i], v.real('central%s_%d' % (k, j))))
        v.ensure('random', v.eq(r[i], v.real('rnd%s_%d_0' % (k, j))))


@harness('C05', targets=[L_ + 'Likelihood.__init__', L_ + 'Likelihood.log_likelihood', L_ + 'Likelihood.log_likelihood_exp', L_ + 'Likelihood.log_prior_fit_parameters'],
         level='bounded', note='six measurements, four parameters', max_paths=60)
def full_likelihood(v):
    """prior of the fit parameters plus likelihood of the measurements"""
    meas, t = world(v)
    po, _ = prior(v)
    obs = {'12': ['o1', 'o2'], '3': [t]}[v.choice('observables', ['12', '3'])]
    inc, exc, pseudo = {'all': (None, None, False), 'include': (['m2', 'm3'], None, False), 'exclude': (None, ['m3', 'm1'], False), 'pseudo': (None, None, True)}[
        v.choice('selection', ['all', 'include', 'exclude', 'pseudo'])]
    pars = v.choice('parameters', [None, []] + PARS[:3])
    names = selected(meas, obs, inc, exc, pseudo)
    L = lh.Likelihood(po, None if pars is None else list(pars), list(obs), include_measurements=inc, exclude_measurements=exc, include_pseudo_measurements=pseudo)
    x = {n: v.real('x_' + n) for n in 'pqrs'}
    w = v.real('w')
    val = {o: predicted(v, o, x, w) for o in obs}
    for excl in (None, ['o1']):
        for delta, kind in ((False, 'logp'), (True, 'dlogp')):
            e = total(v, meas, names, obs, excl or [], val, kind)
            p = prior_total(v, pars or [], x, kind)
            v.ensure('prior', v.eq(L.log_prior_fit_parameters(x, delta=delta), p, scale=3))
            v.ensure('experimental', v.eq(L.log_likelihood_exp(x, WC(w), exclude_observables=excl, delta=delta), e, scale=5))
            v.ensure('total', v.eq(L.log_likelihood(x, WC(w), exclude_observables=excl, delta=delta), p + e, scale=5))


@harness('C05', targets=[L_ + x for x in ('Likelihood.__init__', 'Likelihood.log_likelihood', 'Likelihood.log_likelihood_exp', 'Likelihood.log_prior_fit_parameters',
                                           'MeasurementLikelihood.__init__', 'ParameterLikelihood.log_likelihood_par')],
         level='bounded', note='six measurements, four parameters', max_paths=60)
def default_arguments(v):
    """without further arguments: the default parameters, all measurements but the pseudo measurements, no excluded observables, the full logarithm of the density"""
    meas, t = world(v)
    po, _ = prior(v)
    obs = ['o2', 'o1', t]
    L = lh.Likelihood(par_obj=po, fit_parameters=['q', 'p'], observables=list(obs)) if v.boolean('keywords') else lh.Likelihood(po, ['q', 'p'], list(obs))
    names = selected(meas, obs, None, None, False)
    v.ensure('measurements', sorted(L.measurement_likelihood.get_measurements) == sorted(names))
    v.ensure('measurements of the class', sorted(lh.MeasurementLikelihood(list(obs)).get_measurements) == sorted(names))
    x = {n: v.real('x_' + n) for n in 'pqrs'}
    w = v.real('w')
    val = {o: predicted(v, o, x, w) for o in obs}
    e, p = total(v, meas, names, obs, [], val, 'logp'), prior_total(v, ['q', 'p'], x, 'logp')
    v.ensure('prior', v.eq(L.log_prior_fit_parameters(x), p, scale=3))
    v.ensure('parameters', v.eq(L.parameter_likelihood.log_likelihood_par(x), p, scale=3))
    v.ensure('experimental', v.eq(L.log_likelihood_exp(x, WC(w)), e, scale=5))
    v.ensure('predictions', v.eq(L.measurement_likelihood.log_likelihood_pred(dict(val)), e, scale=5))
    v.ensure('total', v.eq(L.log_likelihood(x, WC(w)), p + e, scale=5))


@harness('C05', targets=[L_ + 'MeasurementLikelihood._warn_meas_corr'], level='bounded', note='up to three measurements', max_paths=60)
def profiled_observables(v):
    """a warning exactly if an observable outside the fit is correlated with the same observable of the fit in several selected measurements"""
    fresh_registry(v)
    for o in ('o1', 'o2', 'z1', 'z2'):
        observable(v, o)
    cons = {'none': [[['o1']], [['o2']]], 'one': [[['o1', 'z1']], [['o2', 'z2']]], 'several': [[['z1', 'o1']], [['o1', 'z1']]], 'three': [[['z1', 'o1', 'z2']], [['o2'], ['o1', 'z1']], [['o1', 'z1']]],
            'separate': [[['o1'], ['z1']], [['o1'], ['z1']]], 'inside': [[['o1', 'o2']], [['o1', 'o2']]]}
    c = v.choice('measurements', list(cons))
    for i, m in enumerate(cons[c]):
        k = Measurement('m%d' % i)
        for j, obs in enumerate(m):
            k.add_constraint(list(obs), Dist(v, 'm%d%d' % (i, j), len(obs)))
    inc = v.choice('selection', [None, ['m0']])
    if inc and c in ('none', 'one'):
        inc = None
    fit = ['o1'] if c in ('several', 'separate') or inc and c == 'three' else ['o1', 'o2']
    warned = []
    v.setattr(lh.warnings, 'warn', lambda *a, **k: warned.append(str(a[0])))
    L = lh.MeasurementLikelihood(fit, include_measurements=inc)
    count = {}
    for i, m in enumerate(cons[c]):
        if inc is None or 'm%d' % i in inc:
            for obs in m:
                for o in obs:
                    for z in obs:
                        if o in fit and z not in fit:
                            count[z, o] = count.get((z, o), 0) + 1
    want = [(z, o, n) for (z, o), n in count.items() if n > 1]
    v.ensure('number of warnings', len(warned) == len(want))
    for z, o, n in want:
        v.ensure('who is profiled over', sum("'%s'" % z in t and "'%s'" % o in t and str(n) in t and t.index("'%s'" % z) < t.index("'%s'" % o) for t in warned) == 1)
    got = {(z, o): n for z, k in L._warn_meas_corr().items() for o, n in k.items()}
    v.ensure('counts', got == count)


@harness('C05', targets=[L_ + 'Likelihood.__init__', 'flavio.io.instanceio.YAMLLoadable.get_yaml_dict', 'flavio.io.instanceio.YAMLLoadable.load_dict', 'flavio.io.instanceio.list_deduplicate'],
         level='bounded', note='representative instances of every class', max_paths=80)
def written_and_read(v):
    """a likelihood written to YAML and read back is the same likelihood"""
    q = ('<dBR/dq2>(B+->Kmumu)', 1.1, 6.0)
    obs = v.choice('observables', [['BR(Bs->mumu)'], [q, 'BR(Bs->mumu)']])
    cls = v.choice('class', ['MeasurementLikelihood', 'ParameterLikelihood', 'Likelihood'])
    sel = {'none': {}, 'exclude': {'exclude_measurements': ['LHCb Bs->mumu 2021']}}[v.choice('selection', ['none', 'exclude'])]
    pars = v.choice('parameters', [['Vub'], ['Vub', 'm_b']])
    po = flavio.default_parameters
    if v.choice('changed', [0, 1]) and cls != 'MeasurementLikelihood':
        po = po.copy()
        po.set_constraint('Vub', '0.004(1)')
    if cls == 'MeasurementLikelihood':
        L = lh.MeasurementLikelihood(list(obs), **sel)
    elif cls == 'ParameterLikelihood':
        L = lh.ParameterLikelihood(po, list(pars))
    else:
        L = lh.Likelihood(po, list(pars), list(obs), **sel)
    d = L.get_yaml_dict()
    N = type(L).load_dict(d)
    if cls != 'ParameterLikelihood':
        v.ensure('observables', N.observables == obs)
        M, O = (N, L) if cls == 'MeasurementLikelihood' else (N.measurement_likelihood, L.measurement_likelihood)
        v.ensure('measurements', sorted(M.get_measurements) == sorted(O.get_measurements))
    if cls != 'MeasurementLikelihood':
        a, b = (N, L) if cls == 'ParameterLikelihood' else (N.parameter_likelihood, L.parameter_likelihood)
        v.ensure('parameters', list(a.parameters) == list(b.parameters))
        v.ensure('central values', all(abs(x - y) <= 1e-12*abs(y) for x, y in zip(a.get_central, b.get_central)))
        p = dict(b.parameters_central, Vub=0.0045)
        x, y = a.log_likelihood_par(p), b.log_likelihood_par(p)
        v.ensure('prior', bool(abs(x - y) <= 1e-9*(1 + abs(y))))
