"""C09 names: observables, predictions, implementations and measurements are found, formatted and evaluated under their own names"""
from collections import OrderedDict
import numpy as np
from vf.api import harness
from vf.stubs import Dist, fresh_registry, WC
import flavio
from flavio.classes import (Observable, Measurement, Prediction, Parameter, AuxiliaryQuantity, Implementation, NamedInstanceClass, ParameterConstraints)

C_ = 'flavio.classes.'


def raises(f, e):
    try:
        f()
    except e:
        return True
    return False


ARGS = {'o0': None, 'o1': ['q2'], 'o2': ['q2min', 'q2max']}


def names(v):
    fresh_registry(v, Observable, Measurement)
    for n, a in ARGS.items():
        Observable(n, arguments=a)


def same(v, a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, str):
        return a == b
    if isinstance(a, dict):
        return v.and_(*[a[k] == b[k] if isinstance(a[k], str) else v.eq(a[k], b[k]) for k in a]) if set(a) == set(b) else False
    return v.and_(*[x == y if isinstance(x, str) else v.eq(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else False


def form(v, n, x, f, order=0):
    a = ARGS[n]
    if f == 'dict':
        d = [('name', n)] + [(k, y) for k, y in zip(a or [], x)]
        return dict(d if not order else d[::-1])
    if a is None:
        return n
    return tuple([n] + x) if f == 'tuple' else [n] + x


@harness('C09', targets=[C_ + 'Observable.argument_format'], level='bounded', note='observables with up to two arguments', max_paths=200)
def argument_format(v):
    """an observable with its arguments can be given as string, tuple, list or dictionary in any order, and all of them mean the same"""
    names(v)
    n = v.choice('observable', list(ARGS))
    x = [v.real('x%d' % i) for i in range(len(ARGS[n] or []))]
    src = form(v, n, x, v.choice('from', ['tuple', 'list', 'dict']), v.choice('order', [0, 1]))
    copy = dict(src) if isinstance(src, dict) else list(src) if isinstance(src, list) else src
    to = v.choice('to', ['tuple', 'list', 'dict', None])
    got = Observable.argument_format(src, to) if to else Observable.argument_format(src)
    v.ensure('same observable and arguments', same(v, got, form(v, n, x, to or 'tuple')))
    if isinstance(got, dict):
        got.pop('name')
        got['extra'] = 1
    elif isinstance(got, list):
        got.append(1)
    v.ensure('input unchanged', same(v, src, copy))


@harness('C09', targets=[C_ + 'Observable.argument_format'], level='bounded', note='observables with up to two arguments', max_paths=200)
def wrong_arguments(v):
    """missing, superfluous and unknown arguments and observables are rejected"""
    names(v)
    n = v.choice('observable', list(ARGS))
    k = v.choice('given', [0, 1, 2, 3])
    x = [v.real('x%d' % i) for i in range(k)]
    as_list = v.boolean('list')
    o = [n] + x if as_list else tuple([n] + x)
    need = len(ARGS[n] or [])
    bad = raises(lambda: Observable.argument_format(o), ValueError)
    v.ensure('number of arguments', bad == (k != need or ARGS[n] is None))
    v.ensure('missing arguments', raises(lambda: Observable.argument_format(n), ValueError) == (ARGS[n] is not None))
    v.ensure('unknown observable', raises(lambda: Observable.argument_format('o9'), KeyError) and raises(lambda: Observable.argument_format(('o9', 1)), KeyError))
    if ARGS[n]:
        v.ensure('missing argument in dictionary', raises(lambda: Observable.argument_format({'name': n}), KeyError))


def predict(v, o, par, x, *a):
    return v.uf('pred ' + o, par['p'], x, *a)


def predictions(v):
    for n, a in ARGS.items():
        def f(wc_obj, par, *args, _n=n, _a=a, **kw):
            return predict(v, _n, par, wc_obj.wc.x, *(list(args) + [kw[k] for k in (_a or [])[len(args):]]))
        Prediction(n, f)


@harness('C09', targets=[C_ + 'Observable.from_function', C_ + 'Prediction.__init__', C_ + 'Prediction.get_par', C_ + 'Prediction.get_central', C_ + 'Observable.prediction_par',
                         C_ + 'Observable.prediction_central', C_ + 'Observable.set_prediction'], level='bounded', note='functions of up to three observables', max_paths=300)
def from_function(v):
    """an observable defined as a function of others is that function of their predictions at the same parameters, coefficients and arguments"""
    names(v)
    Observable('o2b', arguments=['q2min', 'q2max'])
    Observable('none', arguments=['q2min', 'q2max'])
    ARGS2 = dict(ARGS, o2b=['q2min', 'q2max'])
    predictions(v)
    Prediction('o2b', lambda wc_obj, par, *args, **kw: predict(v, 'o2b', par, wc_obj.wc.x, *(list(args) + [kw[k] for k in ['q2min', 'q2max'][len(args):]])))
    g = lambda *x: v.uf('function', *x)
    src = v.choice('observables', [['o0'], ['o1', 'o1'], ['o2', 'o2b'], ['o2b', 'o2'], ['o2b', 'o2', 'o2b'], ['o1', 'o2'], ['o2', 'unknown'], ['o2', 'none']])
    if src in (['o1', 'o2'], ['o2', 'none']):
        v.ensure('incompatible', raises(lambda: Observable.from_function('new', src, g), AssertionError))
        return
    if 'unknown' in src:
        v.ensure('unknown', raises(lambda: Observable.from_function('new', src, g), ValueError))
        return
    o = Observable.from_function('new', src, g)
    v.ensure('registered', Observable['new'] is o and o.arguments == ARGS2[src[0]] and o.name == 'new')
    par = {'p': v.real('p')}
    w = WC(v.real('w'))
    a = ARGS2[src[0]] or []
    x = [v.real('x%d' % i) for i in range(len(a))]
    k = v.choice('named', list(range(len(a) + 1)))

    class Constraints:
        def get_central_all(self):
            return par
    kw = dict(list(zip(a, x))[len(a) - k:][::-1])
    if v.boolean('central'):
        got = o.prediction_central(Constraints(), w, *x[:len(a) - k], **kw)
    else:
        got = o.prediction_par(par, w, *x[:len(a) - k], **kw)
    v.ensure('function of the predictions', v.eq(got, g(*[predict(v, s, par, w.wc.x, *x) for s in src])))
    v.ensure('prediction of an unknown observable', raises(lambda: Prediction('unknown', g), ValueError))


@harness('C09', targets=[C_ + 'Observable.get_measurements'], uses=[C_ + 'Constraints.add_constraint'], level='bounded', note='up to three measurements of up to three observables', max_paths=600)
def measurements(v):
    """the measurements of an observable are those constraining it for any arguments, and no others"""
    names(v)
    Observable('o')
    Observable('o00')
    x = v.real('x')
    pool = [['o0'], [('o1', 1.)], [('o2', 1., 2.), 'o0'], ['o', ('o1', 2.)], ['o00']]
    held = []
    for i in range(3):
        c = v.choice('content %d' % i, list(range(len(pool) + 1)))
        if c == len(pool):
            continue
        m = Measurement('m%d' % (2 - i))
        m.add_constraint(list(pool[c]), Dist(v, 'd%d' % i, len(pool[c])))
        held.append((m.name, {o if isinstance(o, str) else o[0] for o in pool[c]}))
    for n in ('o', 'o0', 'o1', 'o2', 'o00'):
        v.ensure('measurements', sorted(Observable[n].get_measurements()) == sorted(m for m, s in held if n in s))


@harness('C09', targets=[C_ + 'AuxiliaryQuantity.get_implementation', C_ + 'AuxiliaryQuantity.prediction', C_ + 'AuxiliaryQuantity.prediction_central', C_ + 'Implementation.__init__',
                         C_ + 'Implementation.get', C_ + 'Implementation.get_central', C_ + 'Implementation.get_random'], level='bounded', note='two quantities with two implementations each, two changes of the configuration',
         max_paths=300)
def implementations(v):
    """an auxiliary quantity is computed by the implementation configured at the time of the call"""
    fresh_registry(v, AuxiliaryQuantity, Implementation)
    for q in 'AB':
        AuxiliaryQuantity('quantity ' + q)
        for k in '12':
            Implementation(q + k, 'quantity ' + q, lambda wc_obj, par, *a, _n=q + k, **kw: v.uf('impl ' + _n, par['p'], wc_obj.wc.x, *a, *kw.values()))
    conf = {}
    v.setattr(flavio.classes, 'config', {'implementation': conf})
    par, rnd = {'p': v.real('p')}, {'p': v.real('random p')}

    class Constraints:
        def get_central_all(self):
            return par

        def get_random_all(self):
            return rnd
    w = WC(v.real('w'))
    q2 = v.real('q2')
    for s in range(2):
        k = v.choice('set %d' % s, ['A', 'B', None])
        if k:
            conf['quantity ' + k] = k + v.choice('implementation %d' % s, ['1', '2'])
        for q in 'AB':
            a = AuxiliaryQuantity['quantity ' + q]
            n = conf.get('quantity ' + q)
            if n is None:
                v.ensure('not configured', raises(lambda: a.prediction(par, w, q2), KeyError))
                continue
            kw = {'q2': q2} if q == 'B' else {}
            ar = [] if q == 'B' else [q2]
            want = v.uf('impl ' + n, par['p'], w.wc.x, q2)
            v.ensure('configured implementation', a.get_implementation() is Implementation[n])
            v.ensure('prediction', v.eq(a.prediction(par, w, *ar, **kw), want))
            v.ensure('central prediction', v.eq(a.prediction_central(Constraints(), w, *ar, **kw), want))
            v.ensure('implementation', v.eq(Implementation[n].get(par, w, *ar, **kw), want))
            v.ensure('random', v.eq(Implementation[n].get_random(Constraints(), w, *ar, **kw), v.uf('impl ' + n, rnd['p'], w.wc.x, q2)))
    v.ensure('quantity', all(i.quantity_obj is AuxiliaryQuantity[i.quantity] for i in Implementation.instances.values()))
    v.ensure('unknown quantity', raises(lambda: Implementation('C1', 'quantity C', None), ValueError))


@harness('C09', targets=[C_ + 'NamedInstanceClass.__init__', C_ + 'NamedInstanceClass.get_instance', C_ + 'NamedInstanceClass.del_instance', C_ + 'NamedInstanceClass.clear_all',
                         C_ + 'NamedInstanceClass.find', C_ + 'NamedInstanceMetaclass.__getitem__', C_ + 'NamedInstanceMetaclass.__delitem__'], level='bounded', note='histories of 3 operations on two classes and two names',
         max_paths=3000, total=300)
def registry(v):
    """every class has its own names; the newest instance of a name is found until it is deleted"""
    A = type('A', (NamedInstanceClass,), {})
    B = type('B', (NamedInstanceClass,), {})
    A('a.1'), B('b')
    model = {A: {'a.1': A['a.1']}, B: {'b': B['b']}}
    for s in range(3):
        op = v.choice('step %d' % s, ['new', 'delete', 'clear'])
        c = A if op == 'clear' or v.boolean('class %d' % s) else B
        if op == 'clear':
            c.clear_all()
            model[c] = {}
            continue
        n = v.choice('name %d' % s, ['a.1', 'b'])
        if op == 'new':
            model[c][n] = c(n)
        elif n in model[c]:
            if s % 2:
                del c[n]
            else:
                c.del_instance(n)
            del model[c][n]
        else:
            v.ensure('unknown', raises(lambda: c.del_instance(n), KeyError))
    for c in (A, B):
        v.ensure('names', set(c.instances) == set(model[c]))
        for n, i in model[c].items():
            v.ensure('instance', c[n] is i and c.get_instance(n) is i and i.name == n)
        v.ensure('find', set(c.find('a')) == {n for n in model[c] if 'a' in n} and set(c.find('^b$')) == {n for n in model[c] if n == 'b'} and set(c.find(r'\.')) == {n for n in model[c] if '.' in n})
        v.ensure('not found', all(raises(lambda: c[n], KeyError) for n in ('a.1', 'b', 'z') if n not in model[c]))


@harness('C09', targets=['flavio.config'], level='bounded', native_only=True, native_n=1, note='shipped configuration and data, run time only')
def shipped(v):
    """the shipped configuration names existing implementations of the right quantity; measurements name existing observables with the right number of arguments"""
    for q, n in flavio.config['implementation'].items():
        if q in AuxiliaryQuantity.instances:
            v.ensure('implementation', Implementation[n].quantity == q)
    for m in Measurement.instances.values():
        for o in m.all_parameters:
            n, k = (o, 0) if isinstance(o, str) else (o[0], len(o) - 1)
            v.ensure('observable', n in Observable.instances)
            v.ensure('arguments', len(Observable[n].arguments or []) == k)
            v.ensure('prediction', Observable[n].prediction is not None)
            v.ensure('found', m.name in Observable[n].get_measurements()) if k == 0 else None
