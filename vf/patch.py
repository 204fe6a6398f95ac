"""Installs the library models into the loaded flavio modules (their bytecode is untouched)."""
import sys
import math
import cmath
import types
import builtins
import functools
import numpy as np
import scipy
import scipy.stats
import scipy.special
import scipy.optimize
from . import models
from . import sym as S
from .sym import R
from .term import PI

_saved = []
_done = False


def install(extra=()):
    """patch globals of flavio.* and the numerics-only dependencies"""
    global _done
    if _done:
        return
    _done = True
    M, mmod, cmod, npm, lam, spm = models.build()
    mathp = models.Proxy(math, dict(mmod, pi=R(PI)))
    cmathp = models.Proxy(cmath, dict(cmod, pi=R(PI)))
    statsp = models.Proxy(scipy.stats, models.STATS_M)
    specp = models.Proxy(scipy.special, spm)
    optp = models.Proxy(scipy.optimize, {'brentq': models.brentq})
    scipyp = models.Proxy(scipy, {'stats': statsp, 'special': specp, 'optimize': optp})
    lap = models.Proxy(np.linalg, lam)
    rndp = models.Proxy(np.random, models.RANDOM_M)
    npp = models.Proxy(np, dict(npm, linalg=lap, random=rndp, pi=R(PI)))
    mods = {id(math): mathp, id(cmath): cmathp, id(scipy.stats): statsp, id(scipy.special): specp, id(scipy.optimize): optp,
            id(scipy): scipyp, id(np.linalg): lap, id(np): npp}
    rmod = sys.modules.get('flavio.physics.running.running')
    if rmod is not None:
        from . import phys
        rmod.qcd = phys.QCDModel()
        rmod.rundec = phys.RundecModel()
    for name, mod in list(sys.modules.items()):
        if mod is None or not isinstance(mod, types.ModuleType):
            continue
        if not (name == 'flavio' or name.startswith('flavio.') or name == 'ckmutil.ckm' or name.startswith('spec_') or name in extra):
            continue
        if '.test' in name:
            continue
        g = mod.__dict__
        for k, v in list(g.items()):
            if k.startswith('__'):
                continue
            new = None
            if isinstance(v, functools._lru_cache_wrapper):
                new = v.__wrapped__
            elif isinstance(v, np.vectorize):
                new = models.vectorized(v.pyfunc)
            elif id(v) in mods:
                new = mods[id(v)]
            elif id(v) in M and M[id(v)][0] is v:
                new = M[id(v)][1]
            elif isinstance(v, float) and v == math.pi:
                new = R(PI)
            if new is not None:
                _saved.append((g, k, v))
                g[k] = new
        for k, v in (('isinstance', models.b_isinstance), ('float', models.b_float), ('complex', models.b_complex)):
            if k not in g:
                g[k] = v
                _saved.append((g, k, None))


# ------------------------------------------------------------------ callee contracts by code swap
_tramp = {}


def _make_tramp(name, argdefs):
    src = 'def tramp(*a, **k):\n    return __vf_dispatch__(%r, a, k)\n' % name
    d = {}
    exec(compile(src, '<vf contract %s>' % name, 'exec'), d)
    return d['tramp'].__code__


def dispatch(name, a, k):
    return _tramp[name](*a, **k)


builtins.__vf_dispatch__ = dispatch


class Swap:
    """replace function bodies by their contracts for the duration of a run"""

    def __init__(self):
        self.saved = []

    def swap(self, f, handler, name=None):
        name = name or f.__module__ + '.' + f.__qualname__
        while hasattr(f, '__wrapped__'):
            if not isinstance(f, types.FunctionType):
                try:
                    f.cache_clear()
                except AttributeError:
                    pass
            f = f.__wrapped__
        if f.__code__.co_freevars:
            raise S.Unsupported('contract on a closure: ' + name)
        _tramp[name] = handler
        self.saved.append((f, f.__code__, f.__defaults__, f.__kwdefaults__))
        f.__code__ = _make_tramp(name, None)
        f.__defaults__ = None
        f.__kwdefaults__ = None

    def restore(self):
        for f, c, d, kd in reversed(self.saved):
            f.__code__ = c
            f.__defaults__ = d
            f.__kwdefaults__ = kd
        self.saved = []
