"""C02 univariate probability distributions: pdf, cdf, quantiles, errors, supports and samples agree"""
import math
import numpy as np
from vf.api import harness
import flavio
from flavio.statistics import probability as pr
from flavio.statistics.functions import confidence_level

Q = 'flavio.statistics.probability.'


def raises(f, *e):
    try:
        f()
    except e:
        return True
    return False


def basics(v, d, cls=None):
    """support is ordered and contains the centre; the argument dictionary rebuilds the distribution"""
    v.ensure('support ordered', v.le(d.support[0], d.support[1]))
    v.ensure('centre in support', v.and_(v.le(d.support[0], d.central_value), v.le(d.central_value, d.support[1])))
    v.ensure('get_central', v.eq(d.get_central(), d.central_value))
    a = d.get_dict()
    e = type(d)(**a)
    v.ensure('rebuilt centre', v.eq(e.central_value, d.central_value))
    v.ensure('rebuilt support', v.eq(list(e.support), list(d.support)))
    b = e.get_dict()
    v.ensure('same keys', list(a) == list(b))
    for k in a:
        v.ensure('rebuilt ' + k, v.eq(a[k], b[k]))
    od = d.get_dict(distribution=True)
    e = pr.dict2dist(dict(od))
    v.ensure('dict2dist', v.and_(len(e) == 1, type(e[0]) is type(d), v.eq(e[0].central_value, d.central_value)))
    v.ensure('class name', pr.string_to_class(od['distribution']) is type(d))
    return e[0]


def errors(v, d, contains=True):
    """errors are non-negative, grow with the number of sigmas, and the properties are the one-sigma errors"""
    n = v.real('nsigma', pos=True, dom=(0.2, 4))
    el, er = d.get_error_left(nsigma=n), d.get_error_right(nsigma=n)
    v.ensure('left error', v.ge(el, 0))
    v.ensure('right error', v.ge(er, 0))
    v.ensure('property left', v.eq(d.error_left, d.get_error_left(1)))
    v.ensure('property right', v.eq(d.error_right, d.get_error_right(1)))
    if contains:
        c = d.central_value
        v.ensure('contains the confidence level', v.eq(d.cdf(c + er) - d.cdf(c - el), confidence_level(n), scale=1, tol=1e-7))
    return n, el, er


def cdf_laws(v, d, x, p, u=None):
    """x inside the open support, 0<p<1"""
    c = d.cdf(x)
    v.ensure('0<=cdf', v.ge(c, 0))
    v.ensure('cdf<=1', v.le(c, 1))
    v.ensure('ppf(cdf)', v.eq(d.ppf(c), x, scale=1, tol=1e-5))
    v.ensure('cdf(ppf)', v.eq(d.cdf(d.ppf(p)), p, scale=1, tol=1e-7))
    dx = v.deriv(d.cdf, x, u)
    if v.sym:
        v.ensure('pdf = dcdf/dx', v.eq(v.flog(dx), d.logpdf(x)))
    else:
        v.ensure('pdf = dcdf/dx', v.eq(dx, math.exp(d.logpdf(x)), scale=1e-2, tol=1e-4))
    if hasattr(d, 'pdf'):
        v.ensure('pdf = exp(logpdf)', v.eq(d.pdf(x), v.fexp(d.logpdf(x))))


def prob(v):
    return v.real('p', lo=0.02, hi=0.98)


@harness('C02', targets=[Q + 'NormalDistribution'])
def normal(v):
    c, s = v.real('c'), v.real('s', pos=True)
    d = pr.NormalDistribution(c, s)
    t = v.real('t')
    x = c + s*t
    basics(v, d)
    cdf_laws(v, d, x, prob(v), t)
    n, el, er = errors(v, d)
    v.ensure('errors are n sigma', v.and_(v.eq(el, n*s), v.eq(er, n*s)))
    v.ensure('mode', v.le(d.logpdf(x), d.logpdf(c)))
    v.ensure('symmetric', v.eq(d.logpdf(c + x), d.logpdf(c - x)))
    v.ensure('6 sigma support', v.eq(d.cdf(d.support[1]), v.Phi(6)))
    v.ensure('6 sigma support left', v.eq(d.cdf(d.support[0]), v.Phi(-6), tol=1e-4))
    v.ensure('delta_logpdf', v.eq(d.delta_logpdf(x), -(x - c)**2/s**2/2, scale=1))
    bad = v.real('bad', hi=0)
    v.ensure('non-positive sigma rejected', raises(lambda: pr.NormalDistribution(c, bad), ValueError))


@harness('C02', targets=[Q + 'LogNormalDistribution'])
def lognormal(v):
    sg = v.choice('sign', [1, -1])
    c, f, t = v.real('c', pos=True)*sg, v.real('f', pos=True, dom=(1.1, 2)), v.real('x', pos=True)
    v.assume_(f > 1)
    d = pr.LogNormalDistribution(c, f)
    x = sg*t
    basics(v, d)
    cdf_laws(v, d, x, prob(v), t)
    errors(v, d)
    v.ensure('central value is the median', v.eq(d.cdf(c), 0.5))
    v.ensure('one sigma interval is [c/f, c*f]', v.and_(v.eq(c + d.error_right, c*f if sg > 0 else c/f),
                                                       v.eq(c - d.error_left, c/f if sg > 0 else c*f)))
    v.ensure('wrong sign impossible', v.eq(d.logpdf(-x), -math.inf))
    v.ensure('support', v.eq(list(d.support), [0, c*f**6] if sg > 0 else [c*f**6, 0]))
    v.ensure('zero rejected', raises(lambda: pr.LogNormalDistribution(0, f), ValueError))
    bad = v.real('bad', hi=1)
    v.ensure('factor <= 1 rejected', raises(lambda: pr.LogNormalDistribution(c, bad), ValueError))
    r = d.get_random()
    v.ensure('samples have the right sign', v.gt(r*sg, 0))


@harness('C02', targets=[Q + 'AsymmetricNormalDistribution'])
def asymmetric_normal(v):
    c, a, b = v.real('c'), v.real('right', pos=True), v.real('left', pos=True)
    d = pr.AsymmetricNormalDistribution(c, right_deviation=a, left_deviation=b)
    basics(v, d)
    n, el, er = errors(v, d, contains=False)
    v.ensure('errors are n sigma', v.and_(v.eq(el, n*b), v.eq(er, n*a)))
    t = v.real('t', pos=True)
    # the two halves carry the fractions b/(a+b) and a/(a+b) of the probability and join continuously
    v.ensure('right half', v.eq(d.logpdf(c + t), v.flog(2*a/(a + b)) + pr.NormalDistribution(c, a).logpdf(c + t), scale=1))
    v.ensure('left half', v.eq(d.logpdf(c - t), v.flog(2*b/(a + b)) + pr.NormalDistribution(c, b).logpdf(c - t), scale=1))
    v.ensure('continuous at the centre', v.eq(v.flog(2*b/(a + b)) + pr.NormalDistribution(c, b).logpdf(c), d.logpdf(c), scale=1))
    v.ensure('mode', v.and_(v.le(d.logpdf(c + t), d.logpdf(c)), v.le(d.logpdf(c - t), d.logpdf(c))))
    v.ensure('support', v.eq(list(d.support), [c - 6*b, c + 6*a]))
    bad = v.real('bad', hi=0)
    v.ensure('rejected', raises(lambda: pr.AsymmetricNormalDistribution(c, bad, b), ValueError) and
             raises(lambda: pr.AsymmetricNormalDistribution(c, a, bad), ValueError))


@harness('C02', targets=[Q + 'HalfNormalDistribution'])
def half_normal(v):
    sg = v.choice('sign', [1, -1])
    c, s, t = v.real('c'), v.real('s', pos=True), v.real('t', pos=True)
    d = pr.HalfNormalDistribution(c, sg*s)
    basics(v, d)
    u = v.real('u', pos=True, dom=(0.2, 4))
    cdf_laws(v, d, c + sg*s*u, prob(v), u)
    n, el, er = errors(v, d)
    v.ensure('errors', v.and_(v.eq(el, 0 if sg > 0 else n*s), v.eq(er, n*s if sg > 0 else 0)))
    v.ensure('wrong side impossible', v.eq(d.logpdf(c - sg*t), -math.inf))
    v.ensure('cdf on the wrong side', v.eq(d.cdf(c - sg*t), 0 if sg > 0 else 1))
    v.ensure('twice the normal', v.eq(d.logpdf(c + sg*t), v.flog(2) + pr.NormalDistribution(c, s).logpdf(c + sg*t), scale=1))
    v.ensure('support', v.eq(list(d.support), [c, c + 6*s] if sg > 0 else [c - 6*s, c]))
    v.ensure('zero rejected', raises(lambda: pr.HalfNormalDistribution(c, 0), ValueError))
    v.ensure('samples on the right side', v.ge((d.get_random() - c)*sg, 0))


@harness('C02', targets=[Q + 'GaussianUpperLimit', Q + 'HalfNormalDistribution'])
def gaussian_upper_limit(v):
    lim, cl = v.real('limit', pos=True), v.real('cl', lo=0.05, hi=0.99)
    d = pr.GaussianUpperLimit(lim, cl)
    basics(v, d)
    v.ensure('cdf(limit) = CL', v.eq(d.cdf(lim), cl, tol=1e-9))
    v.ensure('ppf(CL) = limit', v.eq(d.ppf(cl), lim))
    v.ensure('central value', d.central_value == 0)
    k = v.real('k', pos=True)
    e = pr.GaussianUpperLimit(k*lim, cl)
    v.ensure('scales with the limit', v.eq(e.standard_deviation, k*d.standard_deviation))
    x = v.real('x', pos=True)
    v.ensure('negative impossible', v.eq(d.logpdf(-x), -math.inf))
    bad, neg = v.real('bad', pos=True, dom=(1.01, 2)), v.real('neg', hi=0)
    v.assume_(bad > 1)
    v.ensure('rejected', raises(lambda: pr.GaussianUpperLimit(lim, bad), ValueError) and
             raises(lambda: pr.GaussianUpperLimit(neg, cl), ValueError))


@harness('C02', targets=[Q + 'UniformDistribution'])
def uniform(v):
    c, h = v.real('c'), v.real('h', pos=True)
    d = pr.UniformDistribution(c, h)
    basics(v, d)
    n, el, er = errors(v, d, contains=False)
    v.ensure('support', v.eq(list(d.support), [c - h, c + h]))
    t, u = v.real('t'), v.real('u', pos=True)
    v.ensure('errors contain the confidence level', v.and_(v.eq(el, confidence_level(n)*h), v.eq(er, confidence_level(n)*h)))
    v.ensure('outside right', v.eq(d.logpdf(c + h + u), -math.inf))
    v.ensure('outside left', v.eq(d.logpdf(c - h - u), -math.inf))
    v.assume_(v.and_(v.gt(t, -h), v.gt(h, t)))
    v.ensure('normalised', v.eq(v.fexp(d.logpdf(c + t))*2*h, 1))
    r = d.get_random()
    v.ensure('samples in range', v.and_(v.ge(r, c - h), v.le(r, c + h)))


@harness('C02', targets=[Q + 'DeltaDistribution'])
def delta(v):
    c, x = v.real('c'), v.real('x')
    v.assume_(x != c)
    d = pr.DeltaDistribution(c)
    basics(v, d)
    v.ensure('at the value', v.eq(d.logpdf(c), 0))
    v.ensure('elsewhere', v.eq(d.logpdf(x), -math.inf))
    y = d.logpdf(np.array([x, c]))
    v.ensure('array', v.and_(v.eq(y[0], -math.inf), v.eq(y[1], 0)))
    v.ensure('samples', v.eq(d.get_random(), c) and v.eq(d.get_random(2), np.array([c, c])))
    v.ensure('errors', d.error_left == 0 and d.error_right == 0)


@harness('C02', targets=[Q + 'DiscreteUniformDistribution'], level='bounded', note='integer ranges inside [-3, 4]')
def discrete_uniform(v):
    a = v.choice('a', [-3, -1, 0, 1, 2])
    n = v.choice('n', [1, 2, 3])
    b = a + n - 1
    for c in (None,) + tuple(range(a, b + 1)):
        d = pr.DiscreteUniformDistribution(a, b, c)
        basics(v, d)
        v.ensure('central value', a <= d.central_value <= b and (c is None or d.central_value == c))
        v.ensure('normalised', v.eq(sum(v.fexp(d.logpdf(x)) for x in range(a, b + 1)), 1))
        v.ensure('outside', v.eq(d.logpdf(b + 1), -math.inf) and v.eq(d.logpdf(a - 1), -math.inf))
        v.ensure('between', v.eq(d.logpdf(a + 0.5), -math.inf))
    for c in (a - 1, b + 1, 0):
        if not a <= c <= b:
            v.ensure('central value outside the range rejected', raises(lambda: pr.DiscreteUniformDistribution(a, b, c), ValueError))


@harness('C02', targets=[Q + 'GammaDistribution'])
def gamma(v):
    a, sc = v.real('a', pos=True, dom=(1.5, 6)), v.real('scale', pos=True)
    loc = -v.real('mloc', nonneg=True)
    v.assume_(a > 1)
    d = pr.GammaDistribution(a, loc, sc)
    y = v.real('y', pos=True)
    v.assume_(v.le(d.cdf(d.central_value), 0.5))        # theorem: the mode of a gamma distribution is below its median
    basics(v, d)
    cdf_laws(v, d, loc + y*sc, prob(v), y)
    v.ensure('mode', v.eq(d.central_value, loc + (a - 1)*sc))
    v.ensure('scaling', v.eq(d.cdf(loc + sc*y), pr.GammaDistribution(a, 0, 1).cdf(y)))
    v.ensure('below loc', v.eq(d.logpdf(loc - y), -math.inf))
    v.ensure('stationary at the mode', v.eq(v.deriv(lambda q: d.logpdf(loc + q*sc), y, y)*y, a - 1 - y, scale=1, tol=1e-4))
    bad = v.real('bad', pos=True)
    v.ensure('positive loc rejected', raises(lambda: pr.GammaDistribution(a, bad, sc), ValueError))


@harness('C02', targets=[Q + 'GammaDistribution.get_error_left', Q + 'GammaDistribution.get_error_right', Q + 'GammaDistribution._find_error_cdf'],
         note='brentq by its contract: a root inside the bracket')
def gamma_errors(v):
    """the n-sigma interval contains the confidence level and has equal density at both ends"""
    a, sc = v.real('a', pos=True, dom=(2.5, 6)), v.real('scale', pos=True)
    v.assume_(a > 1)
    d = pr.GammaDistribution(a, -v.real('mloc', nonneg=True), sc)
    n = v.real('nsigma', pos=True, dom=(0.3, 1.5))
    cl = confidence_level(n)
    v.assume_(v.gt(1, cl + 0.01))
    root = []
    if v.sym:
        orig = d._find_error_cdf
        d._find_error_cdf = lambda c: root[0] if root else (root.append(orig(c)) or root[0])
    try:
        el, er = d.get_error_left(n), d.get_error_right(n)
    except ValueError:
        v.assume_(False)
    c = d.central_value
    v.ensure('contains the confidence level', v.eq(d.cdf(c + er) - d.cdf(c - el), cl, scale=1, tol=1e-5))
    v.ensure('equal density', v.eq(d.logpdf(c + er), d.logpdf(c - el), scale=1, tol=1e-5))


@harness('C02', targets=[Q + 'GammaDistributionPositive'])
def gamma_positive(v):
    """the gamma distribution restricted to positive values and renormalised"""
    a, sc = v.real('a', pos=True, dom=(1.5, 6)), v.real('scale', pos=True)
    loc = -v.real('mloc', nonneg=True)
    v.assume_(a > 1)
    d = pr.GammaDistributionPositive(a, loc, sc)
    g = pr.GammaDistribution(a, loc, sc)
    y = v.real('y', pos=True)
    v.assume_(v.le(g.cdf(g.central_value), 0.5))        # theorem: the mode of a gamma distribution is below its median
    basics(v, d)
    v.ensure('support positive', v.ge(d.support[0], 0))
    cdf_laws(v, d, y, prob(v))
    c0 = g.cdf(0)
    v.ensure('renormalised cdf', v.eq(d.cdf(y)*(1 - c0), g.cdf(y) - c0, scale=1, tol=1e-9))
    v.ensure('renormalised pdf', v.eq(d.logpdf(y) - g.logpdf(y), -v.flog(1 - c0), scale=1))
    v.ensure('negative impossible', v.eq(d.logpdf(-y), -math.inf))
    v.ensure('cdf at negative', v.eq(d.cdf(-y), 0))
    v.ensure('cdf(0)', v.eq(d.cdf(0), 0, scale=1))
    v.ensure('mode', v.eq(d.central_value, max(g.central_value, 0)))
    v.ensure('positive loc rejected', raises(lambda: pr.GammaDistributionPositive(a, y, sc), ValueError))


@harness('C02', targets=[Q + 'GammaDistributionPositive.get_random'], level='bounded', note='samples of size 1 and 2, up to 6 draws')
def gamma_positive_random(v):
    a, sc = v.real('a', pos=True, dom=(1.5, 6)), v.real('scale', pos=True)
    d = pr.GammaDistributionPositive(a, 0 if v.boolean('loc0') else -v.real('mloc', nonneg=True, dom=(0, 0.1)), sc)
    r = d.get_random(2)
    v.ensure('two', len(r) == 2)
    v.ensure('non-negative', v.and_(v.ge(r[0], 0), v.ge(r[1], 0)))
    s = d.get_random()
    v.ensure('single sample is a number', np.ndim(s) == 0)
    v.ensure('single non-negative', v.ge(s, 0))


@harness('C02', targets=[Q + 'GammaDistributionPositive.get_error_left', Q + 'GammaDistributionPositive.get_error_right'],
         note='brentq by its contract: a root inside the bracket')
def gamma_positive_errors(v):
    """the quoted interval contains the confidence level: one-sided at zero or two-sided with equal density"""
    a, sc = v.real('a', pos=True, dom=(1.5, 6)), v.real('scale', pos=True)
    v.assume_(a > 1)
    d = pr.GammaDistributionPositive(a, -v.real('mloc', nonneg=True, dom=(0, 6)), sc)
    n = v.real('nsigma', pos=True, dom=(0.3, 1.5))
    cl = confidence_level(n)
    v.assume_(v.gt(1, cl + 0.01))
    root = []
    if v.sym:
        orig = d._find_error_cdf
        d._find_error_cdf = lambda c: root[0] if root else (root.append(orig(c)) or root[0])
    c = d.central_value
    try:
        el, er = d.get_error_left(n), d.get_error_right(n)
    except ValueError:
        v.assume_(False)
    if v.sym and not root or not v.sym and el == c:
        v.ensure('one-sided: down to zero', v.eq(el, c))
        v.ensure('one-sided: upper end', v.eq(d.cdf(er), cl, scale=1, tol=1e-6))
    else:
        v.ensure('contains the confidence level', v.eq(d.cdf(c + er) - d.cdf(c - el), cl, scale=1, tol=1e-5))
        v.ensure('equal density', v.eq(d.logpdf(c + er), d.logpdf(c - el), scale=1, tol=1e-5))


def counts(v):
    """the three ways of giving total = signal + background"""
    b, s = v.real('background', nonneg=True), v.real('signal', dom=(0.1, 4))
    t = b + s
    v.assume_(v.ge(t, 0))
    return [dict(counts_total=t, counts_background=b), dict(counts_total=t, counts_signal=s),
            dict(counts_background=b, counts_signal=s)], t, b, s


@harness('C02', targets=[Q + 'GammaCountingProcess', Q + 'GammaDistributionPositive'])
def gamma_counting(v):
    """any two of the three counts give the same distribution; it scales with the scale factor"""
    kw, t, b, s = counts(v)
    f = v.real('f', pos=True)
    y = v.real('y', pos=True)
    ds = [pr.GammaCountingProcess(scale_factor=f, **k) for k in kw]
    for d in ds:
        v.ensure('counts', v.and_(v.eq(d.counts_total, t, scale=1), v.eq(d.counts_background, b, scale=1), v.eq(d.counts_signal, s, scale=1)))
        v.ensure('cdf', v.eq(d.cdf(y*f), pr.GammaCountingProcess(**kw[0]).cdf(y), scale=1))
        v.ensure('gamma', v.eq(d.cdf(y*f), pr.GammaDistributionPositive(t + 1, -b, 1).cdf(y), scale=1))
        v.ensure('mode', v.eq(d.central_value, f*max(s, 0), scale=1))
    bad = v.real('bad', lo=0.01)
    v.ensure('too few', raises(lambda: pr.GammaCountingProcess(counts_total=t), ValueError))
    v.ensure('inconsistent', raises(lambda: pr.GammaCountingProcess(counts_total=t, counts_background=b, counts_signal=s + bad*(t + 1)), ValueError))
    v.ensure('negative background', raises(lambda: pr.GammaCountingProcess(counts_total=t, counts_background=-bad), ValueError))
    v.ensure('negative total', raises(lambda: pr.GammaCountingProcess(counts_total=-bad, counts_background=b), ValueError))
    v.ensure('negative scale', raises(lambda: pr.GammaCountingProcess(scale_factor=-bad, counts_total=t, counts_background=b), ValueError))


@harness('C02', targets=[Q + 'GammaUpperLimit', Q + 'GammaCountingProcess', Q + 'GammaDistributionPositive'])
def gamma_upper_limit(v):
    """the probability below the limit is the confidence level, however the counts are specified"""
    kw, t, b, s = counts(v)
    lim, cl = v.real('limit', pos=True), v.real('cl', lo=0.05, hi=0.99)
    for i, k in enumerate(kw):
        d = pr.GammaUpperLimit(limit=lim, confidence_level=cl, **k)
        v.ensure('cdf(limit) = CL', v.eq(d.cdf(lim), cl, tol=1e-8))
        v.ensure('counts', v.and_(v.eq(d.counts_total, t, scale=1), v.eq(d.counts_background, b, scale=1)))
        if i == 0:
            v.assume_(v.le(d.scipy_dist.cdf((t - b)*d.scale), 0.5))        # theorem: mode below median
            basics(v, d)
    bad, neg = v.real('bad', pos=True, dom=(1.01, 2)), v.real('neg', hi=0)
    v.assume_(bad > 1)
    v.ensure('rejected', raises(lambda: pr.GammaUpperLimit(limit=lim, confidence_level=bad, **kw[0]), ValueError) and
             raises(lambda: pr.GammaUpperLimit(limit=neg, confidence_level=cl, **kw[0]), ValueError))


def grid(v, n, uneven=True):
    x = [v.real('x0')]
    for i in range(1, n):
        x.append(x[-1] + v.real('dx%d' % i, pos=True))
    return np.array(x), np.array([v.real('y%d' % i, pos=True) for i in range(n)])


@harness('C02', targets=[Q + 'NumericalDistribution'], level='bounded', note='grids with 3 points and positive densities', max_paths=400)
def numerical(v):
    """normalisation, quantiles, monotonicity and support of a tabulated distribution"""
    x, y = grid(v, 3)
    d = pr.NumericalDistribution(x, y)
    v.ensure('support', v.eq(list(d.support), [x[0], x[2]]))
    k = v.choice('mode', [0, 1, 2])
    v.assume_(v.and_(*[v.ge(y[k], y[i]) for i in range(3)]))
    p = [d.pdf(q) for q in x]
    v.ensure('mode has the largest density', v.eq(d.pdf(d.central_value), p[k]))
    v.ensure('normalised (trapezoidal)', v.eq((p[0] + p[1])/2*(x[1] - x[0]) + (p[1] + p[2])/2*(x[2] - x[1]), 1))
    v.ensure('proportional', v.eq(p[0]*y[1], p[1]*y[0]))
    v.ensure('cdf ends', v.and_(v.eq(d.cdf(x[0]), 0), v.eq(d.cdf(x[2]), 1)))
    q = v.real('q', pos=True)
    v.ensure('zero outside', v.and_(v.eq(d.pdf(x[2] + q), 0), v.eq(d.pdf(x[0] - q), 0)))


@harness('C02', targets=[Q + 'NumericalDistribution'], level='bounded', note='grids with 3 points and positive densities', max_paths=400)
def numerical_quantiles(v):
    x, y = grid(v, 3)
    d = pr.NumericalDistribution(x, y, central_value=x[1])
    p = v.real('p', lo=0.01, hi=0.99)
    q = d.ppf(p)
    v.ensure('in support', v.and_(v.ge(q, x[0]), v.le(q, x[2])))
    v.ensure('cdf(ppf)', v.eq(d.cdf(q), p, scale=1))
    r = d.get_random()
    v.ensure('samples in support', v.and_(v.ge(r, x[0]), v.le(r, x[2])))
    out = v.real('out', pos=True)
    v.ensure('centre outside rejected', raises(lambda: pr.NumericalDistribution(x, y, central_value=x[2] + out), ValueError))


@harness('C02', targets=[Q + 'NumericalDistribution.get_error_left', Q + 'NumericalDistribution.get_error_right'],
         level='bounded', note='grids with 3 points and positive densities', max_paths=400)
def numerical_errors(v):
    """central interval: the same fraction CL of the probability on each side; limits: one-sided"""
    x, y = grid(v, 3)
    c = x[1]
    d = pr.NumericalDistribution(x, y, central_value=c)
    n = v.real('nsigma', pos=True, dom=(0.2, 2))
    cl = confidence_level(n)
    el, er = d.get_error_left(n), d.get_error_right(n)
    v.ensure('left', v.ge(el, 0))
    v.ensure('right', v.ge(er, 0))
    cc = d.cdf(c)
    v.ensure('left fraction', v.eq(cc - d.cdf(c - el), cl*cc, scale=1))
    v.ensure('right fraction', v.eq(d.cdf(c + er) - cc, cl*(1 - cc), scale=1))
    v.ensure('upper limit', v.eq(d.cdf(c + d.get_error_right(n, method='limit')), cl, scale=1))
    v.ensure('lower limit', v.eq(d.cdf(c - d.get_error_left(n, method='limit')), 1 - cl, scale=1))
    v.ensure('unknown method', raises(lambda: d.get_error_left(n, method='x'), ValueError) and raises(lambda: d.get_error_right(n, method='x'), ValueError))


@harness('C02', name='general_gamma_positive', level='bounded', native_only=True, note='three concrete parameter sets, contract evaluated at run time only',
         targets=[Q + 'GeneralGammaDistributionPositive', Q + 'GeneralGammaCountingProcess', Q + 'GeneralGammaUpperLimit'])
def general_gamma(v):
    """numerical gamma distributions: usable directly, scale with the scale factor, and reproduce the limit"""
    t, b, s = v.choice('counts', [(7, 4, 1.5), (3, 0.5, 0.5), (12, 10, 3)])
    d = pr.GeneralGammaDistributionPositive(a=t + 1, loc=-2*b, scale=2, gaussian_standard_deviation=s)
    e = pr.GeneralGammaCountingProcess(scale_factor=2, counts_total=t, counts_background=b, background_std=s)
    f = pr.GeneralGammaCountingProcess(scale_factor=1, counts_signal=t - b, counts_background=b, background_std=s)
    g = pr.GeneralGammaUpperLimit(limit=6, confidence_level=0.9, counts_total=t, counts_signal=t - b, background_std=s)
    xs = [0.7, 3.1, 5.3]
    for x in xs:
        close(v, 'counting process', e.cdf(2*x), d.cdf(2*x), 1e-6)
        close(v, 'scale factor', e.cdf(2*x), f.cdf(x), 1e-4)
        v.ensure('negative impossible', bool(d.logpdf(-x) == -np.inf) and bool(g.logpdf(-x) == -np.inf))
    close(v, 'cdf(limit) = CL', g.cdf(6.), 0.9, 1e-3)
    v.ensure('counts', g.counts_background == b and g.counts_total == t and g.limit == 6 and g.background_std == s)
    v.ensure('support positive', d.support[0] >= 0 and g.support[0] >= 0)
    v.ensure('inconsistent', raises(lambda: pr.GeneralGammaCountingProcess(counts_total=t, counts_background=b, counts_signal=t), ValueError))
    v.ensure('negative background', raises(lambda: pr.GeneralGammaCountingProcess(counts_total=t, counts_background=-b), ValueError))
    v.ensure('positive loc', raises(lambda: pr.GeneralGammaDistributionPositive(a=t + 1, loc=b, scale=2, gaussian_standard_deviation=s), ValueError))


def close(v, name, a, b, tol):
    v.ensure(name, v.and_(v.le(a, b + tol), v.ge(a, b - tol)))
