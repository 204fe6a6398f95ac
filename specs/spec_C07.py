"""C07 uncertainties, covariances and combinations: every entry belongs to the right parameters, observables and measurements"""
import numpy as np
from collections import OrderedDict
from vf.api import harness
from vf.stubs import Dist, density, fresh_registry, WC, observable, predicted
import flavio
from flavio import functions as fn
from flavio.classes import Measurement, Observable, Parameter, ParameterConstraints
from flavio.statistics import likelihood as lh
from flavio.statistics import probability as pr

L_ = 'flavio.statistics.likelihood.'
F_ = 'flavio.functions.'


class Pool:
    """contract of multiprocessing.Pool: map applies the function to every element, in order"""

    def __init__(self, n):
        pass

    def map(self, f, it):
        return [f(x) for x in it]

    def close(self):
        pass

    join = close


def world(v):
    fresh_registry(v)
    observable(v, 'o1')
    observable(v, 'o2', ['q2', 's'])
    observable(v, 'o3')
    if v.sym:
        v.setattr(fn, 'Pool', Pool)
    wsm = WC(v.real('wsm'))
    v.setattr(flavio.physics.eft, '_wc_sm', wsm)
    po = ParameterConstraints()
    for p in ('p', 'q', 'r'):
        Parameter.instances.setdefault(p, None)
    po.add_constraint(['p'], Dist(v, 'u', 1))
    po.add_constraint(['r', 'q'], Dist(v, 'v', 2))
    v.setattr(flavio, 'default_parameters', po)
    return po, wsm


WHERE = {'p': ('u', 0), 'r': ('v', 0), 'q': ('v', 1)}


def central(v):
    return {n: v.real('central%s_%d' % w) for n, w in WHERE.items()}


def drawn(v, s, vary=None):
    c = central(v)
    return {n: v.real('rnd%s_%d_%d' % (w + (s,))) if vary is None or n in vary else c[n] for n, w in WHERE.items()}


class Sampled(Dist):
    def __init__(self, v, k, x):
        super().__init__(v, k, len(x))
        self.x = x

    def rnd(self, i, s):
        return self.x[i][s]


def variance(x, ddof):
    m = sum(x)/len(x)
    return sum((y - m)**2 for y in x)/(len(x) - ddof)


def covariance(x, y):
    mx, my = sum(x)/len(x), sum(y)/len(y)
    return sum((a - mx)*(b - my) for a, b in zip(x, y))/(len(x) - 1)


# ------------------------------------------------------------------ theory uncertainties
@harness('C07', targets=[F_ + 'sm_covariance', F_ + '_get_prediction_array_sm', L_ + 'SMCovariance.compute', L_ + 'SMCovariance.get'], level='bounded',
         note='3 random samples, up to 3 observables and 3 parameters', max_paths=200)
def sm_covariance(v):
    """sample covariance of the SM predictions; parameters that are not varied stay at their central values"""
    po, wsm = world(v)
    t = ('o2', v.real('q2', dom=(1, 6)), v.real('s', dom=(1, 6)))
    obs = {'1': ['o1'], '12': ['o1', t], '321': ['o3', t, 'o1'], '2': [t]}[v.choice('observables', ['1', '12', '321', '2'])]
    vary = v.choice('varied', ['all', [], ['p'], ['q', 'p'], ['r']])
    N = 3
    k = {} if vary == 'all' and v.boolean('default') else {'par_vary': list(vary) if vary != 'all' else 'all', 'par_obj': po}
    if v.boolean('likelihood class'):
        c = lh.SMCovariance(list(obs), vary_parameters=k.get('par_vary', 'all'), par_obj=k.get('par_obj'))
        cov = c.get(N=N, threads=1 + v.choice('threads', [0, 1]))
    else:
        cov = fn.sm_covariance(list(obs), N=N, threads=1 + v.choice('threads', [0, 1]), **k)
    cov = np.asarray(cov)
    x = [[predicted(v, o, drawn(v, s, None if vary == 'all' else vary), wsm.wc.x) for s in range(N)] for o in obs]
    v.ensure('shape', cov.shape == ((len(obs), len(obs)) if len(obs) > 1 else ()))
    cov = cov.reshape(len(obs), len(obs))
    for i in range(len(obs)):
        for j in range(len(obs)):
            v.ensure('covariance', v.eq(cov[i, j], covariance(x[i], x[j]), scale=1))


@harness('C07', targets=[F_ + 'np_uncertainty', F_ + 'sm_uncertainty', F_ + 'np_prediction', F_ + 'sm_prediction', F_ + '_obs_prediction_par'], level='bounded',
         note='3 random samples', max_paths=40)
def uncertainty(v):
    """central prediction at the central parameters, uncertainty the standard deviation over random parameters; arguments by position or name"""
    po, wsm = world(v)
    w = WC(v.real('w'))
    q, s = v.real('q2', dom=(1, 6)), v.real('s', dom=(1, 6))
    pos, kw = {'positional': ((q, s), {}), 'mixed': ((q,), {'s': s}), 'named': ((), {'s': s, 'q2': q})}[v.choice('arguments', ['positional', 'mixed', 'named'])]
    th = 1 + v.choice('threads', [0, 1])
    t = ('o2', q, s)
    for x, pred, unc in ((w.wc.x, lambda: fn.np_prediction('o2', w, *pos, **kw), lambda: fn.np_uncertainty('o2', w, *pos, N=3, threads=th, **kw)),
                         (wsm.wc.x, lambda: fn.sm_prediction('o2', *pos, **kw), lambda: fn.sm_uncertainty('o2', *pos, N=3, threads=th, **kw))):
        v.ensure('central', v.eq(pred(), predicted(v, t, central(v), x)))
        y = [predicted(v, t, drawn(v, i), x) for i in range(3)]
        u = unc()
        v.ensure('uncertainty', v.and_(v.ge(u, 0), v.eq(u**2, variance(y, 0), scale=1)))


@harness('C07', targets=[F_ + 'sm_error_budget', F_ + 'get_dependent_parameters_sm'], level='bounded', note='2 random samples, 3 parameters', max_paths=40)
def error_budget(v):
    """one entry for every group of correlated parameters the prediction depends on: relative variation when only this group is varied"""
    po, wsm = world(v)
    o = Observable('o4')
    dep = v.choice('depends on', [['p'], ['q'], ['p', 'q'], ['p', 'q', 'r']])
    f = lambda par: v.uf('pred o4 %d' % len(dep), *[par[n] for n in dep])

    def g(wc_obj, par, *a):
        par = par.copy()
        par['scratch'] = 1
        par = par.copy()
        return f(par)*par['scratch']
    flavio.classes.Prediction('o4', g)
    v.ensure('dependence', fn.get_dependent_parameters_sm('o4') == set(dep))
    c = f(central(v))
    v.assume_(v.or_(v.gt(c, 0), v.gt(-c, 0)))
    b = fn.sm_error_budget('o4', N=2)
    groups = [g for g in ([n for n in dep if n in ('p',)], [n for n in dep if n in ('q', 'r')]) if g]
    norm = {tuple(sorted(k)) if isinstance(k, tuple) else (k,): x for k, x in b.items()}
    v.ensure('groups', set(norm) == {tuple(sorted(g)) for g in groups} and all(isinstance(k, str) or len(k) > 1 for k in b))
    # the i-th set of random numbers is shared by all groups (get_random is called once per sample; the contract returns sample 0 each time)
    for g in groups:
        y = [f(drawn(v, 0, g)) for i in range(2)]
        v.ensure('relative variation', v.eq((norm[tuple(sorted(g))]*c)**2, variance(y, 0), scale=1))


# ------------------------------------------------------------------ experimental covariance
@harness('C07', targets=[L_ + 'MeasurementCovariance.compute', L_ + 'MeasurementCovariance.get'], uses=['flavio.classes.Constraints.get_random_all'], level='bounded',
         note='2 or 3 random samples, up to 3 measurements of up to 2 observables', max_paths=40, total=300, time_limit=300)
def experimental_covariance(v):
    """inverse covariances of the measurements add and the central value is the weighted mean; a measurement has no say on observables it does not measure"""
    fresh_registry(v)
    observable(v, 'o1')
    observable(v, 'o2')
    cfg = v.choice('measurements', ['single', 'three of one', 'joint', 'separate', 'joint and one', 'joint and other'])
    meas = {'single': [['o1']], 'three of one': [['o1'], ['o1', 'z'], ['z', 'o1']], 'joint': [['o2', 'o1']], 'separate': [['o1'], ['z', 'o2']],
            'joint and one': [['o1', 'o2'], ['o1']], 'joint and other': [['z', 'o2'], ['o2', 'o1', 'z']]}[cfg]
    obs = ['o1'] if cfg in ('single', 'three of one') else ['o1', 'o2']
    N = 2 if len(obs) == 1 else 3
    W = [[0]*len(obs) for _ in obs]
    Wx = [0]*len(obs)
    for i, names in enumerate(meas):
        # arbitrary samples, parametrised by their mean and deviations
        m, x, dev = {}, {}, {}
        for o in names:
            m[o] = v.real('mean%d%s' % (i, o))
            a, b = v.real('a%d%s' % (i, o), pos=N == 2, dom=(0.5, 2)), v.real('b%d%s' % (i, o), dom=(0.5, 2))
            dev[o] = (a, b)
            x[o] = [m[o] + a, m[o] - a] if N == 2 else [m[o] + a + b, m[o] - a + b, m[o] - 2*b]
        cv = lambda o, p: 2*dev[o][0]*dev[p][0] if N == 2 else dev[o][0]*dev[p][0] + 3*dev[o][1]*dev[p][1]
        Measurement('m%d' % i).add_constraint(list(names), Sampled(v, 'm%d' % i, [x[o] for o in names]))
        x = {o: x[o] for o in obs if o in names}
        if len(x) == 1:
            o = next(iter(x))
            v.assume_(v.gt(cv(o, o), 0 if v.sym else 0.05))
            inv = {(o, o): 1/cv(o, o)}
        else:
            det = 3*(dev['o1'][0]*dev['o2'][1] - dev['o1'][1]*dev['o2'][0])**2
            v.assume_(v.gt(det, 0 if v.sym else 0.05))
            inv = {('o1', 'o1'): cv('o2', 'o2')/det, ('o1', 'o2'): -cv('o1', 'o2')/det, ('o2', 'o1'): -cv('o1', 'o2')/det, ('o2', 'o2'): cv('o1', 'o1')/det}
        for j, o in enumerate(obs):
            for k, p in enumerate(obs):
                W[j][k] = W[j][k] + inv.get((o, p), 0)
                Wx[j] = Wx[j] + inv.get((o, p), 0)*m.get(p, 0)
    ml = lh.MeasurementLikelihood(obs)
    mean, cov = lh.MeasurementCovariance(ml).get(N=N)
    mean, cov = np.ravel(mean), np.asarray(cov).reshape(len(obs), len(obs))
    n = len(obs)
    if v.sym and n == 2:
        # Sigma W = 1, W mean = sum W_i x_i
        det = W[0][0]*W[1][1] - W[0][1]*W[1][0]
        v.assume_(v.gt(det, 0))
    for j in range(n):
        for k in range(n):
            v.ensure('covariance', v.eq(sum(cov[j, l]*W[l][k] for l in range(n)), 1 if j == k else 0, tol=1e-6, scale=10))
        v.ensure('mean', v.eq(sum(W[j][l]*mean[l] for l in range(n)), Wx[j], tol=1e-6, scale=10))


def sym_matrix(v, pre, n):
    L = [[v.real('%s%d%d' % (pre, i, j), pos=(i == j), dom=(0.3, 2) if i == j else (-2, 2)) if j <= i else 0 for j in range(n)] for i in range(n)]
    return np.array([[sum(L[i][m]*L[j][m] for m in range(min(i, j) + 1)) for j in range(n)] for i in range(n)])


@harness('C07', targets=[L_ + 'SMCovariance.load_dict', L_ + 'MeasurementCovariance.load_dict', L_ + 'FastLikelihood.make_measurement', L_ + 'FastLikelihood.log_likelihood',
                         L_ + 'FastLikelihood.__init__'], level='bounded', note='up to 3 observables', max_paths=80, total=300, time_limit=300)
def fast_likelihood(v):
    """the pseudo measurement has the experimental central values and the sum of both covariances, in the order of the observables, however the stored matrices are ordered"""
    world(v)
    v.setattr(lh.FastLikelihood, 'instances', OrderedDict())
    all_obs = ['o1', 'o3', 'o5']
    observable(v, 'o5')
    for o in all_obs:
        Measurement('m' + o).add_constraint([o], Dist(v, 'm' + o, 1))
    obs = {'1': ['o3'], '2': ['o3', 'o1'], '3': ['o5', 'o1', 'o3']}[v.choice('observables', ['1', '2', '3'])]
    stored = v.choice('stored order', [['o1', 'o3', 'o5'], ['o5', 'o3', 'o1', 'o7'], ['o1', 'o5'], 'same'])
    stored = list(obs) if stored == 'same' else stored
    n = len(stored)
    ce = np.array([v.real('c%d' % i) for i in range(n)])
    # arbitrary experimental matrix, total covariance of the observables positive definite
    V = sym_matrix(v, 'L', len(obs))
    ve = [[v.real('E%d%d' % (min(i, j), max(i, j))) for j in range(n)] for i in range(n)]
    vs = [[V[obs.index(stored[i]), obs.index(stored[j])] - ve[i][j] if stored[i] in obs and stored[j] in obs else v.real('S%d%d' % (min(i, j), max(i, j)))
           for j in range(n)] for i in range(n)]
    ve, vs = np.array(ve), np.array(vs)
    F = lh.FastLikelihood('fast', observables=list(obs), nuisance_parameters=['p'])
    try:
        if n == 1:
            F.sm_covariance.load_dict({'observables': list(stored), 'covariance': np.array(vs[0, 0])})
            F.exp_covariance.load_dict({'observables': list(stored), 'covariance': np.array(ve[0, 0]), 'central': ce[0]})
        else:
            F.sm_covariance.load_dict({'observables': list(stored), 'covariance': vs})
            F.exp_covariance.load_dict({'observables': list(stored), 'covariance': ve, 'central': ce})
    except ValueError:
        v.ensure('only incomplete matrices are rejected', not set(obs) <= set(stored))
        return
    v.ensure('incomplete matrices are rejected', set(obs) <= set(stored))
    F.make_measurement()
    v.ensure('only the pseudo measurement', F.likelihood.measurement_likelihood.get_measurements == [F.pseudo_measurement.name])
    v.ensure('original measurements', sorted(F.full_measurement_likelihood.get_measurements) == sorted('m' + o for o in obs))
    ix = [stored.index(o) for o in obs]
    cen = F.pseudo_measurement.get_central_all()
    err = F.pseudo_measurement.get_1d_errors_rightleft()
    for i, o in enumerate(obs):
        v.ensure('central values', v.eq(cen[o], ce[ix[i]]))
        v.ensure('errors', v.eq(err[o][0]**2, V[i][i], scale=1))
    par = central(v)
    w = WC(v.real('w'))
    got = F.log_likelihood(par, w, delta=True)
    v.ensure('one number', np.size(got) == 1)
    got = np.ravel(got)[0]
    d = [predicted(v, o, par, w.wc.x) - ce[ix[i]] for i, o in enumerate(obs)]
    if len(obs) == 1:
        v.ensure('likelihood', v.eq(got*V[0][0]*2, -d[0]**2, scale=10))
    elif len(obs) == 2:
        det = V[0][0]*V[1][1] - V[0][1]**2
        v.ensure('likelihood', v.eq(got*det*2, -(d[0]**2*V[1][1] + d[1]**2*V[0][0] - 2*d[0]*d[1]*V[0][1]), scale=10))


@harness('C07', targets=[L_ + x for x in ('FastLikelihood.__init__', 'FastLikelihood.make_measurement', 'FastLikelihood.log_likelihood', 'SMCovariance.get', 'SMCovariance.compute', 'MeasurementCovariance.get')],
         level='bounded', note='2 random samples, 2 parameters', max_paths=200)
def fast_likelihood_theory(v):
    """total variance = experimental variance + variance of the prediction when the nuisance parameters (by default: all) are varied; nothing is recomputed unless asked for"""
    po, wsm = world(v)
    v.setattr(lh.FastLikelihood, 'instances', OrderedDict())
    w1 = v.real('a', pos=True, dom=(0.5, 2))
    m = v.real('m')
    Measurement('mo1').add_constraint(['o1'], Sampled(v, 'mo1', [[m + w1, m - w1]]))
    vary = v.choice('nuisance', ['default', 'all', None, [], ['p'], ['q', 'r']])
    F = lh.FastLikelihood('fast', po, observables=['o1'], **({} if vary == 'default' else {'nuisance_parameters': vary}))
    varied = list(WHERE) if vary in ('default', 'all') else vary or []
    v.ensure('nuisance parameters', sorted(F.nuisance_parameters) == sorted(varied))
    v.ensure('not yet', raises(lambda: F.likelihood))
    F.make_measurement(N=2, Nexp=2, threads=1 + v.choice('threads', [0, 1]))
    x = [predicted(v, 'o1', drawn(v, s, varied), wsm.wc.x) for s in range(2)]
    total = 2*w1**2 + variance(x, 1)
    d = F.pseudo_measurement._parameters['o1'][1]
    v.ensure('central value', v.eq(np.ravel(d.central_value)[0], m, scale=1))
    sd = np.ravel(d.standard_deviation)[0]
    v.ensure('total variance', v.eq(sd*sd, total, scale=1))
    par, w = central(v), WC(v.real('w'))
    dl = predicted(v, 'o1', par, w.wc.x) - m
    got = np.ravel(F.log_likelihood(par, w, delta=True))[0]
    v.ensure('likelihood', v.eq(got*total*2, -dl**2, scale=10))
    full = np.ravel(F.log_likelihood(par, w))[0]
    v.ensure('likelihood by default with the normalisation', v.eq(full, np.ravel(F.log_likelihood(par, w, delta=False))[0]))
    # what is stored is used until a new computation is asked for
    calls = []
    v.setattr(F.sm_covariance, 'compute', lambda N, threads: calls.append(('sm', N, threads)) or np.array(v.real('new', pos=True)))
    v.setattr(F.exp_covariance, 'compute', lambda N: calls.append(('exp', N)) or (v.real('cen'), np.array(v.real('newexp', pos=True))))
    fs, fe = v.choice('recompute theory', [False, True]), v.choice('recompute experiment', [False, True])
    F.make_measurement(N=7, Nexp=9, threads=3, force=fs, force_exp=fe)
    v.ensure('computed anew exactly on request', sorted(calls) == ([('exp', 9)] if fe else []) + ([('sm', 7, 3)] if fs else []))
    d = F.pseudo_measurement._parameters['o1'][1]
    sd = np.ravel(d.standard_deviation)[0]
    v.ensure('variance after', v.eq(sd*sd, (v.real('newexp', pos=True) if fe else 2*w1**2) + (v.real('new', pos=True) if fs else variance(x, 1)), scale=1))
    v.ensure('central after', v.eq(np.ravel(d.central_value)[0], v.real('cen') if fe else m, scale=1))


def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False


# ------------------------------------------------------------------ combination of measurements
@harness('C07', targets=[F_ + 'combine_measurements'], uses=['flavio.statistics.probability.combine_distributions'], level='bounded', note='up to 3 measurements', max_paths=60)
def combine(v):
    """the combination of all (or the chosen) measurements of an observable is their precision-weighted mean; other observables are dropped"""
    fresh_registry(v)
    observable(v, 'o1')
    observable(v, 'o2', ['q2', 's'])
    q, s = v.real('q2', dom=(1, 6)), v.real('s', dom=(1, 6))
    arg = v.boolean('arguments')
    target = ('o2', q, s) if arg else 'o1'
    other = 'o1' if arg else ('o2', q, s)
    c = [v.real('c%d' % i) for i in range(3)]
    e = [v.real('e%d' % i, pos=True, dom=(0.5, 2)) for i in range(3)]
    rho = v.real('rho', dom=(-0.8, 0.8))
    v.assume_(v.and_(v.gt(rho, -1), v.gt(1, rho)))
    x, y = v.real('x'), v.real('y', pos=True, dom=(0.5, 2))
    Measurement('m0').add_constraint([target], pr.NormalDistribution(c[0], e[0]))
    cov = np.array([[y**2, rho*y*e[1]], [rho*y*e[1], e[1]**2]])
    if v.sym:
        v.assume_(v.or_(v.gt(rho*rho, 1e-3), v.eq(rho, 0)))
    Measurement('m1').add_constraint([other, target], pr.MultivariateNormalDistribution([x, c[1]], cov))
    Measurement('m2').add_constraint([other], pr.NormalDistribution(x, y))
    Measurement('m2').add_constraint([target], pr.NormalDistribution(c[2], e[2]))
    Measurement('Pseudo-measurement m').add_constraint([target], pr.NormalDistribution(x, y))
    # a correlated constraint some of whose members got their own constraint later
    m3 = Measurement('m3')
    m3.add_constraint(['o0', other, target, 'o4'], pr.MultivariateNormalDistribution([11, x, c[0], 12], np.diag([4., 9., 16., 25.])))
    m3.add_constraint(['o0'], pr.NormalDistribution(7., 3.))
    m3.add_constraint([other, 'o5'], pr.MultivariateNormalDistribution([x, 13], np.diag([36., 49.])))
    inc = v.choice('include', [['m0', 'm1', 'm2'], ['m0'], ['m1'], ['m2', 'm1'], ['m3'], ['m3', 'm0'], ['unknown']] if v.boolean('given') else [None])
    kw = {'s': s, 'q2': q} if arg else {}
    if inc is None:
        del Measurement['m3']
    if inc == ['m3']:
        d = fn.combine_measurements(target[0] if arg else target, include_measurements=inc, **kw)
        v.ensure('position in a correlated constraint', v.and_(v.eq(np.ravel(d.central_value)[0], c[0], scale=10), v.eq(np.ravel(d.standard_deviation)[0], 4)))
        return
    e, c = e[:3] + [v.num(4)], c[:3] + [c[0]]
    names = [n for n in ('m0', 'm1', 'm2', 'm3') if (n != 'm3' if inc is None else n in inc)]
    try:
        d = fn.combine_measurements(target[0] if arg else target, include_measurements=inc, **kw)
    except ValueError:
        v.ensure('only missing measurements are an error', not names)
        return
    v.ensure('missing measurements are an error', bool(names))
    ix = [int(n[1]) for n in names]
    prec = sum(1/e[i]**2 for i in ix)
    v.ensure('normal', isinstance(d, pr.NormalDistribution))
    v.ensure('precision', v.eq(1/d.standard_deviation**2, prec, scale=1))
    v.ensure('mean', v.eq(d.central_value*prec, sum(c[i]/e[i]**2 for i in ix), scale=10))


@harness('C07', name='shipped_parameters', targets=[F_ + 'get_dependent_parameters_sm'], level='bounded', native_only=True, native_n=1, note='shipped parameters, three observables, run time only')
def shipped_parameters(v):
    """every shipped parameter a prediction depends on enters its error budget"""
    for p in flavio.default_parameters.all_parameters:
        v.ensure('known parameter', p in Parameter.instances)
    par = flavio.default_parameters.get_central_all()
    for o, a, must in (('dBR/dq2(B+->Kmumu)', (3.,), {'B->K BSZ a0_f+', 'Vcb', 'm_B+'}), ('BR(B+->taunu)', (), {'f_B+', 'Vub', 'm_tau'}), ('DeltaM_s', (), {'f_Bs', 'm_t', 'Vcb'})):
        dep = fn.get_dependent_parameters_sm(o, *a)
        v.ensure('dependence', must <= dep <= set(par))
