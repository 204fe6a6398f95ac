"""C03 multivariate normal and numerical distributions"""
import math
import numpy as np
from vf.api import harness
import flavio
from flavio.statistics import probability as pr

Q = 'flavio.statistics.probability.'
MV, N = pr.MultivariateNormalDistribution, pr.NormalDistribution
HL2PI = 0.5*math.log(2*math.pi)


def raises(f, *e):
    try:
        f()
    except e:
        return True
    return False


def chol(v, dim, k=0):
    """arbitrary positive definite covariance L L^T, any overall magnitude"""
    q = 10.0**v.choice('magnitude', [0, -6, -12]) if not v.sym else 1
    L = [[v.real('L%d_%d%d' % (k, i, j), pos=(i == j), dom=(0.3, 2) if i == j else (-2, 2))*q if j <= i else 0 for j in range(dim)] for i in range(dim)]
    cov = np.array([[sum(L[i][m]*L[j][m] for m in range(min(i, j) + 1)) for j in range(dim)] for i in range(dim)])
    return L, cov, q


def vec(v, name, dim, q=1):
    return np.array([v.real('%s%d' % (name, i))*q for i in range(dim)])


def upper(a, fill=0):
    return np.array([[a[i, j] if j >= i else fill for j in range(a.shape[0])] for i in range(a.shape[0])])


def visible(v, cov):
    """correlations are zero or clearly different from zero (the constructor tests the symmetry with a tolerance)"""
    n = cov.shape[0]
    for i in range(n):
        for j in range(i):
            v.assume_(v.gt(cov[i, j]**2, 1e-12*cov[i, i]*cov[j, j]))


def forward(L, z):
    y = []
    for i in range(len(L)):
        y.append((z[i] - sum(L[i][j]*y[j] for j in range(i)))/L[i][i])
    return y


def logpdf_direct(v, L, z):
    """log of the Gaussian density with covariance L L^T by forward substitution"""
    dim = len(L)
    y = forward(L, z)
    return -sum(q*q for q in y)/2 - sum(v.flog(L[i][i]) for i in range(dim)) - dim*v.flog(2*v.pi)/2


@harness('C03', targets=[Q + 'MultivariateNormalDistribution'], level='bounded', note='2 and 3 dimensions', z3_ms=10000)
def construction(v):
    """covariance, standard deviations and correlation are consistent and equivalent ways of specifying it"""
    dim = v.choice('dim', [2, 3])
    L, cov, q = chol(v, dim)
    c = vec(v, 'c', dim)
    d = MV(c, covariance=cov)
    sd, co = d.standard_deviation, d.correlation
    v.ensure('covariance', v.eq(d.covariance, cov))
    v.ensure('variances', v.eq(sd**2, np.diag(cov)))
    v.ensure('unit diagonal', all(bool(co[i, i] == 1) for i in range(dim)))
    for i in range(dim):
        v.ensure('positive sd', v.gt(sd[i], 0))
        for j in range(dim):
            v.ensure('cov = sd sd corr', v.eq(sd[i]*sd[j]*co[i, j], cov[i, j], scale=sd[i]*sd[j]))
    v.ensure('errors', v.and_(v.eq(d.error_left, sd), v.eq(d.error_right, sd)))
    n = v.real('n', pos=True)
    v.ensure('n sigma', v.and_(v.eq(d.get_error_left(nsigma=n), n*sd), v.eq(d.get_error_right(nsigma=n), n*sd)))
    v.ensure('support', v.and_(v.eq(d.support[0], c - 6*sd, scale=3), v.eq(d.support[1], c + 6*sd, scale=3)))
    e = MV(c, standard_deviation=sd, correlation=co)
    v.ensure('rebuilt covariance', v.eq(e.covariance, cov, scale=q*q))
    v.ensure('rebuilt correlation', v.eq(e.correlation, co, scale=1))
    v.ensure('rebuilt sd', v.eq(e.standard_deviation, sd))
    a = d.get_dict()
    f = MV(**a)
    v.ensure('dict round trip', v.and_(v.eq(f.covariance, cov), v.eq(f.central_value, c)))
    v.ensure('argument names', list(a) == ['central_value', 'covariance', 'standard_deviation', 'correlation'])


@harness('C03', targets=[Q + 'MultivariateNormalDistribution.__init__'], level='bounded', note='2 and 3 dimensions', z3_ms=10000)
def triangular(v):
    """matrices with only the upper triangle are completed by reflection, whatever their magnitude"""
    dim = v.choice('dim', [2, 3])
    L, cov, q = chol(v, dim)
    visible(v, cov)
    c = vec(v, 'c', dim)
    d = MV(c, covariance=cov)
    v.ensure('covariance', v.eq(MV(c, covariance=upper(cov)).covariance, cov))
    e = MV(c, standard_deviation=d.standard_deviation, correlation=upper(d.correlation))
    v.ensure('correlation', v.eq(e.correlation, d.correlation, scale=1))
    v.ensure('covariance from correlation', v.eq(e.covariance, cov, scale=q*q))


@harness('C03', targets=[Q + 'MultivariateNormalDistribution.__init__'], level='bounded', note='2 and 3 dimensions', z3_ms=10000)
def uncorrelated_and_common(v):
    """no correlation given: independent; a single number: the same correlation for all pairs"""
    dim = v.choice('dim', [2, 3])
    sd = np.array([v.real('s%d' % i, pos=True) for i in range(dim)])
    c = vec(v, 'c', dim)
    d = MV(c, standard_deviation=sd)
    for i in range(dim):
        for j in range(dim):
            v.ensure('diagonal', v.eq(d.covariance[i, j], sd[i]**2 if i == j else 0))
    r = v.choice('rho', [0, 0.5, -0.25])
    d = MV(c, standard_deviation=sd, correlation=r)
    for i in range(dim):
        for j in range(dim):
            v.ensure('common', v.eq(d.covariance[i, j], sd[i]*sd[j]*(1 if i == j else r)))
    x = vec(v, 'x', dim)
    d = MV(c, standard_deviation=list(sd))
    v.ensure('factorises', v.eq(d.logpdf(x), sum(N(c[i], sd[i]).logpdf(x[i]) for i in range(dim)), scale=1))
    v.ensure('something is needed', raises(lambda: MV(c), ValueError))


@harness('C03', targets=[Q + 'MultivariateNormalDistribution.logpdf', Q + 'ProbabilityDistribution.delta_logpdf'], level='bounded',
         note='2 and 3 dimensions', z3_ms=10000)
def density(v):
    """the density is the Gaussian density with the given covariance, largest at the centre"""
    dim = v.choice('dim', [2, 3])
    L, cov, q = chol(v, dim)
    c, z = vec(v, 'c', dim, q), vec(v, 'z', dim, q)
    d = MV(c, covariance=cov)
    v.ensure('log density', v.eq(d.logpdf(c + z), logpdf_direct(v, L, z), scale=10, tol=1e-7))
    v.ensure('symmetric about the centre', v.eq(d.logpdf(c + z), d.logpdf(c - z), scale=10, tol=1e-7))
    y = forward(L, z)
    v.ensure('falls off with the distance', v.eq(d.logpdf(c + z) - d.logpdf(c), -sum(t*t for t in y)/2, scale=10, tol=1e-7))
    v.ensure('delta_logpdf', v.eq(d.delta_logpdf(c + z), d.logpdf(c + z) - d.logpdf(c), scale=10, tol=1e-7))


@harness('C03', targets=[Q + 'MultivariateNormalDistribution.logpdf'], level='bounded', note='2 dimensions, permutation and rescaling', z3_ms=10000)
def covariance_of_density(v):
    """reordering the variables or changing their units does not change the probability"""
    L, cov, q = chol(v, 2)
    c, x = vec(v, 'c', 2, q), vec(v, 'x', 2, q)
    d = MV(c, covariance=cov)
    p = [1, 0]
    e = MV(c[p], covariance=cov[p][:, p])
    v.ensure('permuted', v.eq(e.logpdf(x[p]), d.logpdf(x), scale=10, tol=1e-7))
    k = np.array([v.real('k0', pos=True), v.real('k1', pos=True)])
    f = MV(c*k, covariance=cov*np.outer(k, k))
    v.ensure('rescaled', v.eq(f.logpdf(x*k), d.logpdf(x) - v.flog(k[0]) - v.flog(k[1]), scale=10, tol=1e-7))


@harness('C03', targets=[Q + 'MultivariateNormalDistribution.reduce_dimension', Q + 'MultivariateNormalDistribution.logpdf'],
         level='bounded', note='3 dimensions, every subset of excluded dimensions', z3_ms=10000)
def exclude(v):
    """excluded dimensions are dropped from the mean and the covariance (marginalised)"""
    L, cov, q = chol(v, 3)
    c, x = vec(v, 'c', 3, q), vec(v, 'x', 3, q)
    d = MV(c, covariance=cov)
    ex = v.choice('exclude', [(0,), (1,), (2,), (0, 1), (0, 2), (1, 2), (2, 0)])
    keep = [i for i in range(3) if i not in ex]
    r = d.reduce_dimension(exclude=list(ex))
    if len(keep) == 1:
        v.ensure('normal', isinstance(r, N))
        v.ensure('centre', v.eq(r.central_value, c[keep[0]]))
        v.ensure('variance', v.eq(r.standard_deviation**2, cov[keep[0], keep[0]]))
        v.ensure('logpdf', v.eq(d.logpdf(x[keep[0]], exclude=list(ex)), r.logpdf(x[keep[0]]), scale=10))
    else:
        v.ensure('multivariate', isinstance(r, MV))
        v.ensure('centre', v.eq(r.central_value, c[keep]))
        v.ensure('covariance', v.eq(r.covariance, cov[keep][:, keep]))
        v.ensure('logpdf', v.eq(d.logpdf(x[keep], exclude=list(ex)), r.logpdf(x[keep]), scale=10))
        v.ensure('delta_logpdf', v.eq(d.delta_logpdf(x[keep], exclude=list(ex)), r.logpdf(x[keep]) - r.logpdf(c[keep]), scale=10))
    v.ensure('nothing excluded', d.reduce_dimension() is d and d.reduce_dimension(exclude=[]) is d)


@harness('C03', targets=[Q + 'MultivariateNormalDistribution.__init__'], level='bounded', note='2 dimensions', z3_ms=10000)
def rejected(v):
    """indefinite matrices are rejected"""
    a, b = v.real('a', pos=True), v.real('b', pos=True)
    r = v.real('r', pos=True, dom=(1.01, 2))
    v.assume_(r > 1)
    c = vec(v, 'c', 2)
    v.ensure('rejected', raises(lambda: MV(c, covariance=[[a*a, r*a*b], [r*a*b, b*b]]), AssertionError))
    v.ensure('rejected (correlation)', raises(lambda: MV(c, standard_deviation=[a, b], correlation=[[1, r], [r, 1]]), AssertionError))


def grid2(v, positive=True):
    """a 3x2 or 2x3-point grid with even spacings and arbitrary positive values"""
    x0, h, y0, k = v.real('x0'), v.real('h', pos=True), v.real('y0'), v.real('k', pos=True)
    xi = [np.array([x0, x0 + h, x0 + 2*h]), np.array([y0, y0 + k])]
    y = np.array([[v.real('w%d%d' % (i, j), pos=True) for j in range(2)] for i in range(3)])
    return xi, y, h, k


@harness('C03', targets=[Q + 'MultivariateNumericalDistribution.__init__', Q + 'MultivariateNumericalDistribution.logpdf'],
         level='bounded', note='3x2 grids with arbitrary positive values', max_paths=300)
def numerical_density(v):
    """normalised, proportional to the given values on the grid, zero outside"""
    xi, y, h, k = grid2(v)
    i, j = v.choice('i', [0, 1, 2]), v.choice('j', [0, 1])
    cv = [xi[0][i], xi[1][j]]
    d = pr.MultivariateNumericalDistribution(xi, y, central_value=cv)
    tot = np.sum(y)
    v.ensure('normalised', v.eq(np.sum(d.y_norm)*h*k, 1))
    p = d.logpdf(np.array([xi[0][i], xi[1][j]]))
    v.ensure('on the grid', v.eq(p, v.flog(y[i, j]/tot/(h*k)), scale=1))
    t = v.real('t', pos=True)
    for s in ((-t, 0*t), (2*h + t, 0*t), (0*t, -t), (h, k + t)):
        v.ensure('outside', v.eq(d.logpdf(np.array([xi[0][0] + s[0], xi[1][0] + s[1]])), -math.inf))
    v.ensure('centre', v.and_(v.eq(d.central_value[0], cv[0]), v.eq(d.central_value[1], cv[1])))
    for a in (0, 1):
        v.ensure('support', v.and_(v.eq(d.support[0][a], xi[a][0]), v.eq(d.support[1][a], xi[a][-1])))
    v.ensure('no errors', raises(lambda: d.error_left, NotImplementedError) and raises(lambda: d.error_right, NotImplementedError))


@harness('C03', targets=[Q + 'MultivariateNumericalDistribution.__init__'], level='bounded',
         note='3x2 grids with arbitrary positive values', max_paths=300)
def numerical_mode(v):
    """without a central value the centre is the grid point with the largest value; uneven grids are rejected"""
    xi, y, h, k = grid2(v)
    i, j = v.choice('i', [0, 1, 2]), v.choice('j', [0, 1])
    v.assume_(v.and_(*[v.gt(y[i, j], y[a, b]) for a in range(3) for b in range(2) if (a, b) != (i, j)]))
    d = pr.MultivariateNumericalDistribution(xi, y)
    v.ensure('mode', v.and_(v.eq(d.central_value[0], xi[0][i]), v.eq(d.central_value[1], xi[1][j])))
    bad = [np.array([xi[0][0], xi[0][1], xi[0][2] + h]), xi[1]]
    v.ensure('uneven', raises(lambda: pr.MultivariateNumericalDistribution(bad, y), ValueError))


@harness('C03', targets=[Q + 'MultivariateNumericalDistribution.reduce_dimension', Q + 'MultivariateNumericalDistribution.logpdf'],
         level='bounded', note='3x2 grids with arbitrary positive values', max_paths=600)
def numerical_exclude(v):
    """excluded dimensions are profiled: the remaining density is proportional to the maximum along them"""
    xi, y, h, k = grid2(v)
    ex = v.choice('exclude', [0, 1])
    g = xi[1 - ex]
    prof = [max(list(y[:, q] if ex == 0 else y[q, :])) for q in range(len(g))]
    d = pr.MultivariateNumericalDistribution(xi, y, central_value=[xi[0][1], xi[1][1]])
    r = d.reduce_dimension(exclude=[ex])
    v.ensure('univariate', isinstance(r, pr.NumericalDistribution))
    v.ensure('centre', v.eq(r.central_value, g[1]))
    step = g[1] - g[0]
    area = sum((prof[q] + prof[q + 1])/2*step for q in range(len(prof) - 1))
    for q in range(len(prof)):
        v.ensure('profile', v.eq(r.pdf(g[q])*area, prof[q], scale=1))
    v.ensure('logpdf', v.eq(d.logpdf(g[1], exclude=[ex]), r.logpdf(g[1]), scale=1))
    v.ensure('nothing excluded', d.reduce_dimension() is d)
