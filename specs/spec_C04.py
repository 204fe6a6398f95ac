"""C04 collections of constraints: every parameter or observable is governed by exactly its latest constraint"""
import copy
import numpy as np
from vf.api import harness
import flavio
from flavio.classes import Constraints, ParameterConstraints, WilsonCoefficientPriors, Measurement, Parameter
from flavio.statistics import probability as pr
from vf.stubs import Dist, fresh_registry

K = 'flavio.classes.Constraints.'
CONS = [['a'], ['b'], ['a', 'b'], ['b', 'a'], ['b', 'c', 'a']]


def history(v, n, obj, ops=CONS + ['-a', '-b']):
    """apply n arbitrary operations; reference: parameter -> (number of the constraint, position)"""
    ref, cons = {}, []
    for s in range(n):
        op = v.choice('op%d' % s, ops)
        if isinstance(op, str):
            obj.remove_constraint(op[1:])
            ref.pop(op[1:], None)
            continue
        k = len(cons)
        d = Dist(v, k, len(op))
        cons.append((d, op))
        obj.add_constraint(list(op), d)
        for i, p in enumerate(op):
            ref[p] = (k, i)
    return ref, cons


def expected(v, ref, cons, x, exclude, name):
    tot = {}
    for k, (d, op) in enumerate(cons):
        live = [i for i, p in enumerate(op) if ref.get(p) == (k, i) and p not in exclude]
        if live:
            tot[d] = v.uf('%s%d' % (name, k) + ''.join('_%d' % i for i in live), *[x[op[i]] for i in live])
    return tot


@harness('C04', targets=[K + 'add_constraint', K + 'remove_constraint', K + 'get_central', K + 'get_central_all', K + 'get_random_all', K + 'get_1d_errors_rightleft',
                         K + 'all_parameters'], level='bounded', note='histories of up to 3 operations on up to 3 parameters', max_paths=400)
def latest_constraint(v):
    """central values, random values and errors of every parameter come from its latest constraint, at the right position"""
    obj = {'Constraints': Constraints, 'ParameterConstraints': ParameterConstraints, 'WilsonCoefficientPriors': WilsonCoefficientPriors}[
        'Constraints' if v.sym else v.choice('class', ['Constraints', 'ParameterConstraints', 'WilsonCoefficientPriors'])]()
    ref, cons = history(v, 3, obj)
    v.ensure('constrained parameters', sorted(obj.all_parameters) == sorted(ref))
    cen, one, two, err = obj.get_central_all(), obj.get_random_all(), obj.get_random_all(size=2), obj.get_1d_errors_rightleft()
    for n, d in (('central', cen), ('random', one), ('random arrays', two), ('errors', err)):
        v.ensure(n + ' keys', set(d) == set(ref))
    for p, (k, i) in ref.items():
        r = lambda n: v.real('%s%d_%d' % (n, k, i))
        v.ensure('central', v.and_(v.eq(cen[p], r('central')), v.eq(obj.get_central(p), r('central'))))
        v.ensure('random', v.eq(one[p], v.real('rnd%d_%d_0' % (k, i))))
        v.ensure('random arrays', len(two[p]) == 2 and v.and_(*[v.eq(two[p][s], v.real('rnd%d_%d_%d' % (k, i, s))) for s in range(2)]))
        v.ensure('errors', v.and_(v.eq(err[p][0], r('right')), v.eq(err[p][1], r('left'))))
    for p in 'abc':
        if p not in ref:
            try:
                obj.get_central(p)
                ok = False
            except ValueError:
                ok = True
            v.ensure('unconstrained parameter has no central value', ok)


@harness('C04', targets=[K + 'get_logprobability_all', K + 'get_logprobability_single', K + 'add_constraint', K + 'remove_constraint'],
         level='bounded', note='histories of up to 3 operations on up to 3 parameters', max_paths=2200, total=300, time_limit=300)
def log_probability(v):
    """the log probability has one term for every constraint that still governs a parameter which is not excluded: that constraint's density of exactly
    those parameters, in its own order"""
    obj = Constraints()
    ref, cons = history(v, 3, obj)
    x = {p: v.real('x_' + p) for p in 'abc'}
    for exclude in ([], ['a'], ['b', 'c'], ['a', 'b', 'c', 'd'], {'b'}, ('a', 'c')):
        for delta, name in ((False, 'logp'), (True, 'dlogp')):
            got = obj.get_logprobability_all({p: y for p, y in x.items() if p in ref and p not in exclude}, exclude_parameters=exclude, delta=delta)
            want = expected(v, ref, cons, x, exclude, name)
            v.ensure('terms', set(got) == set(want))
            v.ensure('values', v.and_(*([v.eq(got[d], want[d]) for d in want] or [True])))
    full = obj.get_logprobability_all(x)
    v.ensure('nothing excluded by default', set(full) == set(expected(v, ref, cons, x, [], 'logp')))
    for p, (k, i) in ref.items():
        v.ensure('single', v.and_(v.eq(obj.get_logprobability_single(p, x[p]), v.uf('logp%d_%d' % (k, i), x[p])),
                                  v.eq(obj.get_logprobability_single(p, x[p], delta=True), v.uf('dlogp%d_%d' % (k, i), x[p]))))


@harness('C04', targets=[K + 'copy', K + 'add_constraint', K + 'remove_constraint'], level='bounded', note='one copy, one operation before and after', max_paths=100)
def copies_are_independent(v):
    """changing a copy leaves the original untouched, and vice versa"""
    obj = Constraints()
    c = [v.real('c%d' % i) for i in range(3)]
    s = v.real('s', pos=True)
    obj.add_constraint(['a'], pr.NormalDistribution(c[0], s))
    obj.add_constraint(['b'], pr.NormalDistribution(c[1], s))
    new = obj.copy()
    which = v.choice('changed', ['copy', 'original'])
    a, b = (new, obj) if which == 'copy' else (obj, new)
    if v.choice('operation', ['add', 'remove']) == 'add':
        a.add_constraint(['a', ], pr.NormalDistribution(c[2], 2*s))
        v.ensure('changed', v.eq(a.get_central('a'), c[2]))
    else:
        a.remove_constraint('a')
        v.ensure('removed', 'a' not in a.all_parameters)
    v.ensure('other untouched', v.and_(v.eq(b.get_central('a'), c[0]), v.eq(b.get_central('b'), c[1]), v.eq(b.get_1d_errors_rightleft()['a'][0], s)))
    v.ensure('b untouched', v.eq(a.get_central('b'), c[1]))


def real_dist(v, k, n):
    if n == 1:
        kind = v.choice('kind%d' % k, ['normal', 'delta', 'uniform', 'asymmetric'] if k == 0 else ['normal'])
        c, s, t = v.real('c%d' % k), v.real('s%d' % k, pos=True), v.real('t%d' % k, pos=True)
        return {'normal': lambda: pr.NormalDistribution(c, s), 'delta': lambda: pr.DeltaDistribution(c), 'uniform': lambda: pr.UniformDistribution(c, s),
                'asymmetric': lambda: pr.AsymmetricNormalDistribution(c, s, t)}[kind]()
    s = [v.real('s%d_%d' % (k, i), pos=True) for i in range(n)]
    return pr.MultivariateNormalDistribution(np.array([v.real('c%d_%d' % (k, i)) for i in range(n)]),
                                             standard_deviation=np.array(s), correlation=np.eye(n))


@harness('C04', targets=[K + 'get_yaml_dict', K + 'from_yaml_dict', K + 'add_constraint', K + 'remove_constraint'], level='bounded',
         note='histories of up to 3 operations on up to 2 parameters', max_paths=600, total=400, time_limit=400)
def round_trip(v):
    """writing and reading back gives the same constraint on every parameter - also after overwriting or removing constraints"""
    obj = ParameterConstraints()
    k = 0
    ref = {}
    for s in range(3):
        op = v.choice('op%d' % s, [['a'], ['b', 'a'], '-a', '-b'])
        if isinstance(op, str):
            obj.remove_constraint(op[1:])
            ref.pop(op[1:], None)
        else:
            d = real_dist(v, k, len(op))
            k += 1
            obj.add_constraint(list(op), d)
            for i, p in enumerate(op):
                ref[p] = (d, i)
    pname = v.choice('pname', ['parameters', 'observables']) if not v.sym else 'parameters'
    d = obj.get_yaml_dict(pname=pname)
    new = ParameterConstraints.from_yaml_dict(d, pname=pname)
    v.ensure('parameters', sorted(new.all_parameters) == sorted(ref))
    if set(new.all_parameters) != set(ref):
        return
    a, b = obj.get_1d_errors_rightleft(), new.get_1d_errors_rightleft()
    for p in ref:
        x = ref[p][0].central_value
        x = x[ref[p][1]] if isinstance(ref[p][0], pr.MultivariateNormalDistribution) else x
        v.ensure('central value', v.eq(new.get_central(p), x))
        v.ensure('errors', v.and_(v.eq(a[p][0], b[p][0]), v.eq(a[p][1], b[p][1])))
    if v.sym:
        y = {p: v.real('y_' + p) for p in 'ab'}
        if not any(isinstance(c[0], (pr.DeltaDistribution, pr.UniformDistribution)) for c in ref.values()):
            tot = lambda o: sum(np.ravel(z)[0] for z in o.get_logprobability_all(y, delta=True).values())
            v.ensure('log probability', v.eq(tot(new), tot(obj)))


@harness('C04', targets=[K + 'get_yaml_dict', K + 'from_yaml_dict', 'flavio.classes.Measurement.__init__'], level='bounded', note='two constraints', max_paths=40)
def measurement_round_trip(v):
    """a measurement read back has the same name, metadata and observables (names with their argument values)"""
    fresh_registry(v, Measurement)
    m = Measurement('m')
    c, s = v.real('c'), v.real('s', pos=True)
    meta = {k: v.choice(k, ['', 'x']) for k in ('inspire', 'experiment', 'description')}
    for k, x in meta.items():
        setattr(m, k, x)
    q = v.real('q', pos=True)
    m.add_constraint([('o', q, 2*q)], pr.NormalDistribution(c, s))
    m.add_constraint(['p', ('o', q, 3*q)], pr.MultivariateNormalDistribution(np.array([c, 2*c]), standard_deviation=np.array([s, 3*s]), correlation=np.eye(2)))
    d = m.get_yaml_dict(pname='observables')
    Measurement.clear_all()
    new = Measurement.from_yaml_dict(d, pname='observables')
    v.ensure('name', new.name == 'm' and list(Measurement.instances) == ['m'] and Measurement['m'] is new)
    v.ensure('metadata', all(getattr(new, k) == x for k, x in meta.items()))
    obs = new.all_parameters
    v.ensure('observables', len(obs) == 3 and obs[1] == 'p' and all(isinstance(obs[i], tuple) and obs[i][0] == 'o' for i in (0, 2)))
    v.ensure('arguments', v.and_(*[v.eq(x, y) for x, y in zip(obs[0][1:] + obs[2][1:], (q, 2*q, q, 3*q))]))
    v.ensure('values', v.and_(v.eq(new.get_central(obs[0]), c), v.eq(new.get_central('p'), c), v.eq(new.get_central(obs[2]), 2*c)))
