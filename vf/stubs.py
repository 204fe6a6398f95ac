"""Contracts standing for the collaborators of the bookkeeping code: probability distributions, observables, measurements."""
from collections import OrderedDict
import numpy as np
import flavio
from flavio.classes import Observable, Measurement, Parameter, Prediction
from flavio.physics.eft import WilsonCoefficients


class Dist:
    """contract of a probability distribution of dimension n: its methods are arbitrary functions of the arguments"""

    def __init__(self, v, k, n):
        self.v, self.k, self.n = v, k, n

    def _vec(self, name):
        x = [self.v.real('%s%s_%d' % (name, self.k, i)) for i in range(self.n)]
        return x[0] if self.n == 1 else np.array(x)

    @property
    def central_value(self):
        return self._vec('central')

    @property
    def error_left(self):
        return self._vec('left')

    @property
    def error_right(self):
        return self._vec('right')

    def rnd(self, i, s):
        return self.v.real('rnd%s_%d_%d' % (self.k, i, s))

    def get_random(self, size=None):
        if size is None:
            x = [self.rnd(i, 0) for i in range(self.n)]
            return x[0] if self.n == 1 else np.array(x)
        x = [[self.rnd(i, s) for i in range(self.n)] for s in range(size)]
        return np.array([y[0] for y in x]) if self.n == 1 else np.array(x)

    def _p(self, name, x, exclude):
        live = [i for i in range(self.n) if not exclude or i not in exclude]
        x = [x] if self.n == 1 else list(x)
        if len(x) != len(live):
            raise ValueError('dimension')
        return density(self.v, name, self.k, live, x)

    def logpdf(self, x, exclude=None):
        return self._p('logp', x, exclude)

    def delta_logpdf(self, x, exclude=None):
        return self._p('dlogp', x, exclude)


def density(v, name, k, live, x):
    return v.uf('%s%s' % (name, k) + ''.join('_%d' % i for i in live), *x)


def fresh_registry(v, *classes):
    """start from empty registries of named instances (restored afterwards)"""
    for c in classes or (Observable, Measurement):
        v.setattr(c, 'instances', OrderedDict())


class WC(WilsonCoefficients):
    """a point in the space of Wilson coefficients, given by one number"""

    def __init__(self, x):
        super().__init__()
        self.set(x)

    def set(self, x):
        self.wc = _Values(x)
        self._cache = {}


class _Values:
    def __init__(self, x):
        self.x = x
        self.values = {'C': 1}


def observable(v, name, arguments=None):
    """an observable whose prediction is an arbitrary function of the parameters p, q, the Wilson coefficients and its arguments"""
    o = Observable(name, arguments=arguments)

    def f(wc_obj, par_dict, *args, **kw):
        a = [x for x in args] + [kw[k] for k in (arguments or [])[len(args):]]
        return v.uf('pred ' + name, par_dict['p'], par_dict['q'], wc_obj.wc.x, *a)
    Prediction(name, f)
    return o


def predicted(v, obs, par, x):
    name, a = (obs, ()) if isinstance(obs, str) else (obs[0], obs[1:])
    return v.uf('pred ' + name, par['p'], par['q'], x, *a)
