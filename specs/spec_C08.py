"""C08 conversions between significances, confidence levels, Delta chi2 and p-values"""
from vf.api import harness
import flavio
from flavio.statistics import functions as fn

F = 'flavio.statistics.functions.'


def n_(v, name='n', hi=5):
    return v.real(name, nonneg=True, dom=(0.1, hi))


def dof_(v):
    return v.choice('kind', [1, 2, None]) or v.real('dof', pos=True, dom=(0.5, 8))


@harness('C08', targets=[F + 'confidence_level'])
def confidence_level_is_normal_interval(v):
    """CL(n) = P(|x|<n) for a standard normal: 2 Phi(n) - 1, between 0 and 1, strictly increasing, zero at zero"""
    n = n_(v)
    c = fn.confidence_level(n)
    v.ensure('2Phi-1', v.eq(c, v.Phi(n) - v.Phi(-n), tol=1e-9))
    v.ensure('>=0', v.ge(c, 0))
    v.ensure('<1', v.le(c, 1))
    v.ensure('CL(0)=0', v.eq(fn.confidence_level(0), 0, scale=1))
    d = v.real('d', pos=True, dom=(0.1, 2))
    v.ensure('increasing', v.gt(fn.confidence_level(n + d), c))


@harness('C08', targets=[F + 'delta_chi2', F + 'confidence_level'])
def delta_chi2_defining_property(v):
    """the chi2 distribution with dof degrees of freedom contains the n-sigma confidence level below delta_chi2(n, dof)"""
    n, dof = n_(v), dof_(v)
    x = fn.delta_chi2(n, dof)
    v.ensure('>=0', v.ge(x, 0))
    v.ensure('p-value = 1-CL', v.eq(fn.pvalue(x, dof), 1 - fn.confidence_level(n), scale=1, tol=1e-9))
    d = v.real('d', pos=True, dom=(0.1, 1))
    v.ensure('increasing in n', v.gt(fn.delta_chi2(n + d, dof), x))
    v.ensure('one dof: n^2', v.eq(fn.delta_chi2(n, 1), n**2))
    v.ensure('two dof: -2 log(1-CL)', v.eq(v.fexp(-fn.delta_chi2(n, 2)/2), 1 - fn.confidence_level(n), scale=1, tol=1e-9))


@harness('C08', targets=[F + 'pull', F + 'delta_chi2', F + 'confidence_level'])
def pull_inverts_delta_chi2(v):
    n, dof = n_(v), dof_(v)
    v.ensure('pull(delta_chi2(n))=n', v.eq(fn.pull(fn.delta_chi2(n, dof), dof), n, tol=1e-6, scale=1))


@harness('C08', targets=[F + 'pull', F + 'delta_chi2', F + 'confidence_level'])
def delta_chi2_inverts_pull(v):
    x, dof = v.real('x', nonneg=True, dom=(0.1, 20)), dof_(v)
    p = fn.pull(x, dof)
    v.ensure('pull>=0', v.ge(p, 0))
    v.ensure('delta_chi2(pull(x))=x', v.eq(fn.delta_chi2(p, dof), x, tol=1e-6, scale=1))
    v.ensure('CL(pull(x))=1-pvalue(x)', v.eq(fn.confidence_level(p), 1 - fn.pvalue(x, dof), scale=1, tol=1e-9))
    d = v.real('d', pos=True, dom=(0.1, 5))
    v.ensure('increasing', v.gt(fn.pull(x + d, dof), p))


@harness('C08', targets=[F + 'pvalue'])
def pvalue_range(v):
    x, dof = v.real('x', nonneg=True, dom=(0.1, 20)), dof_(v)
    p = fn.pvalue(x, dof)
    v.ensure('<=1', v.le(p, 1))
    v.ensure('>=0', v.ge(p, 0))
    v.ensure('pvalue(0)=1', v.eq(fn.pvalue(0, dof), 1))
    d = v.real('d', pos=True, dom=(0.1, 5))
    v.ensure('decreasing', v.gt(p, fn.pvalue(x + d, dof)))
    v.ensure('two dof: exp(-x/2)', v.eq(fn.pvalue(x, 2), v.fexp(-x/2), scale=1, tol=1e-9))
