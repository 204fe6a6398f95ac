"""C01 combining (multiplying) and convolving probability distributions"""
import math
import numpy as np
from vf.api import harness
import flavio
from flavio.statistics import probability as pr

Q = 'flavio.statistics.probability.'
N, D, MV = pr.NormalDistribution, pr.DeltaDistribution, pr.MultivariateNormalDistribution


def normals(v, n, same=False):
    c = v.real('c')
    out = []
    for i in range(n):
        out.append(N(c if same else v.real('c%d' % i), v.real('s%d' % i, pos=True)))
    return out


def mv2(v, k, dim=2, same=None):
    """an arbitrary 2- or 3-dimensional normal with positive definite covariance L L^T"""
    cv = same if same is not None else np.array([v.real('c%d_%d' % (k, i)) for i in range(dim)])
    L = [[v.real('L%d_%d%d' % (k, i, j), pos=(i == j)) if j <= i else 0 for j in range(dim)] for i in range(dim)]
    cov = np.array([[sum(L[i][m]*L[j][m] for m in range(min(i, j) + 1)) for j in range(dim)] for i in range(dim)])
    return MV(cv, covariance=cov), cov


@harness('C01', targets=[Q + 'combine_distributions', Q + '_combine_distributions_univariate', Q + '_combine_gaussians', Q + 'weighted_average'],
         level='bounded', note='lists of up to 4 normal distributions')
def combine_normals_multiplies_pdfs(v):
    """the log PDF of the combination is the sum of the log PDFs up to a constant; it is again a normalised Gaussian"""
    n = v.choice('n', [1, 2, 3, 4])
    ds = normals(v, n)
    r = pr.combine_distributions(ds)
    v.ensure('is normal', isinstance(r, N))
    x, y = v.real('x'), v.real('y')
    lhs = r.logpdf(x) - r.logpdf(y)
    rhs = sum(d.logpdf(x) - d.logpdf(y) for d in ds)
    sc = sum(1/d.standard_deviation**2*(1 + d.central_value**2) for d in ds)
    v.ensure('product of PDFs', v.eq(lhs, rhs, scale=sc))
    v.ensure('1/s^2 adds', v.eq(1/r.standard_deviation**2, sum(1/d.standard_deviation**2 for d in ds)))


@harness('C01', targets=[Q + 'combine_distributions', Q + '_combine_distributions_univariate', Q + '_combine_gaussians', Q + 'weighted_average'],
         level='bounded', note='lists of 3 normal distributions')
def combine_normals_order_and_grouping(v):
    a, b, c = normals(v, 3)
    r = pr.combine_distributions([a, b, c])
    for name, q in (('permuted', pr.combine_distributions([c, a, b])),
                    ('swapped', pr.combine_distributions([b, a, c])),
                    ('grouped', pr.combine_distributions([pr.combine_distributions([a, b]), c])),
                    ('grouped right', pr.combine_distributions([a, pr.combine_distributions([b, c])]))):
        v.ensure(name + ' sd', v.eq(q.standard_deviation**2, r.standard_deviation**2))
        v.ensure(name + ' centre', v.eq(q.central_value, r.central_value, scale=3))
    v.ensure('not wider', v.le(r.standard_deviation**2, a.standard_deviation**2))


@harness('C01', targets=[Q + 'combine_distributions', Q + '_combine_distributions_univariate'], level='bounded',
         note='lists of up to 3 distributions')
def combine_with_delta(v):
    """an exactly known value wins; contradictory exact values are an error"""
    c, d = v.real('d1'), v.real('d2')
    n1, n2 = normals(v, 2)
    for name, lst in (('last', [n1, n2, D(c)]), ('first', [D(c), n1]), ('twice', [D(c), n1, D(c)]), ('only', [D(c), D(c)])):
        r = pr.combine_distributions(lst)
        v.ensure(name + ' is delta', isinstance(r, D))
        v.ensure(name + ' value', v.eq(r.central_value, c))
    v.assume_(c != d)
    try:
        pr.combine_distributions([D(c), n1, D(d)])
        ok = False
    except ValueError:
        ok = True
    v.ensure('contradiction is an error', ok)


@harness('C01', targets=[Q + 'convolve_distributions', Q + '_convolve_distributions_univariate', Q + '_convolve_gaussians'],
         level='bounded', note='lists of up to 4 normal distributions and up to 2 delta distributions')
def convolve_normals(v):
    """variances add; the centre is the common one ('same') or the sum ('sum'); exact values do not contribute to 'same'"""
    n = v.choice('n', [1, 2, 3, 4])
    same = v.boolean('same')
    ds = normals(v, n, same)
    lst = list(ds)
    if same:
        nd = v.choice('nd', [0, 1, 2])
        for i in range(nd):
            lst.insert(i, D(ds[0].central_value))
    r = pr.convolve_distributions(lst, 'same' if same else 'sum')
    v.ensure('is normal', isinstance(r, N))
    v.ensure('variances add', v.eq(r.standard_deviation**2, sum(d.standard_deviation**2 for d in ds)))
    v.ensure('centre', v.eq(r.central_value, ds[0].central_value if same else sum(d.central_value for d in ds), scale=2))
    if same:
        q = pr.convolve_distributions(lst)
        v.ensure('default is same', v.eq(q.central_value, r.central_value))
        dl = pr.convolve_distributions([D(ds[0].central_value), D(ds[0].central_value)], 'same')
        v.ensure('only deltas', isinstance(dl, D))
        v.ensure('only deltas centre', v.eq(dl.central_value, ds[0].central_value))


@harness('C01', targets=[Q + 'convolve_distributions', Q + '_convolve_distributions_univariate'], level='bounded', note='two distributions')
def convolve_rejects(v):
    """different centres cannot be convolved with 'same'; unknown modes are errors"""
    a, b = normals(v, 2)

    def raises(f, *e):
        try:
            f()
        except e:
            return True
        return False
    v.ensure('bad mode', raises(lambda: pr.convolve_distributions([a, b], 'mean'), ValueError))
    v.assume_(a.central_value != b.central_value)
    v.ensure('different centres', raises(lambda: pr.convolve_distributions([a, b], 'same'), AssertionError, ValueError))
    m, cov = mv2(v, 0)
    v.ensure('different dimensions', raises(lambda: pr.convolve_distributions([a, m], 'sum'), AssertionError, ValueError))
    u = pr.MultivariateNumericalDistribution([np.array([0., 1., 2.]), np.array([0., 1.])], np.array([[1., 2.], [4., 2.], [1., 3.]]))
    v.ensure('several numerical', raises(lambda: pr.convolve_distributions([u, u], 'same'), NotImplementedError))
    v.ensure('different dimensions (combine)', raises(lambda: pr.combine_distributions([a, m]), AssertionError, ValueError))


@harness('C01', targets=[Q + 'convolve_distributions', Q + '_convolve_distributions_multivariate', Q + '_convolve_multivariate_gaussians'],
         level='bounded', note='2 and 3 dimensions, lists of up to 3 distributions', z3_ms=10000)
def convolve_multivariate(v):
    dim = v.choice('dim', [2, 3])
    n = v.choice('n', [2, 3])
    same = v.boolean('same')
    c = np.array([v.real('c_%d' % i) for i in range(dim)])
    dc = [mv2(v, k, dim, c if same else None) for k in range(n)]
    v.pd_sum('PD', *[cov for _, cov in dc])
    r = pr.convolve_distributions([d for d, _ in dc], 'same' if same else 'sum')
    tot = sum(cov for _, cov in dc)
    v.ensure('covariances add', v.eq(r.covariance, tot, scale=10))
    v.ensure('centre', v.eq(np.array(r.central_value), c if same else sum(d.central_value for d, _ in dc), scale=5))


@harness('C01', targets=[Q + 'combine_distributions', Q + '_combine_distributions_multivariate', Q + '_combine_multivariate_gaussians'],
         level='bounded', note='2 dimensions, lists of up to 3 distributions', z3_ms=10000)
def combine_multivariate(v):
    """precision matrices add, precision-weighted means add: PDFs multiply"""
    n = v.choice('n', [1, 2, 3])
    dc = [mv2(v, k) for k in range(n)]
    v.pd_sum('PD', *[inv2(cov) for _, cov in dc])
    r = pr.combine_distributions([d for d, _ in dc])
    P = [inv2(cov) for _, cov in dc]
    PR = inv2(r.covariance)
    sc = sum(abs(p).max() for p in P) if not v.sym else None
    v.ensure('precisions add', v.eq(PR, sum(P), scale=sc))
    h = sum(p.dot(d.central_value) for p, (d, _) in zip(P, dc))
    v.ensure('weighted means add', v.eq(PR.dot(np.array(r.central_value)), h, scale=sc))
    if n == 2:
        q = pr.combine_distributions([dc[1][0], dc[0][0]])
        v.ensure('symmetric covariance', v.eq(q.covariance, r.covariance, scale=5))
        v.ensure('symmetric mean', v.eq(np.array(q.central_value), np.array(r.central_value), scale=5))


def inv2(c):
    d = c[0, 0]*c[1, 1] - c[0, 1]*c[1, 0]
    return np.array([[c[1, 1]/d, -c[0, 1]/d], [-c[1, 0]/d, c[0, 0]/d]])
