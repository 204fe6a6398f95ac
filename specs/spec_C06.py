"""C06 predictions depend on their arguments only, never on what was computed before"""
import numpy as np
from vf.api import harness
from vf.stubs import Dist, fresh_registry, WC, observable, predicted
import flavio
from flavio.classes import Measurement, Observable, ParameterConstraints
from flavio.statistics import likelihood as lh
from flavio.physics.eft import WilsonCoefficients
from wilson import Wilson

L_ = 'flavio.statistics.likelihood.'
E_ = 'flavio.physics.eft.WilsonCoefficients.'
CKM = ['Vus', 'Vcb', 'Vub', 'gamma']


def world(v):
    fresh_registry(v)
    observable(v, 'o1')
    observable(v, 'o2')
    m = Measurement('m')
    m.add_constraint(['o1', 'o2'], Dist(v, 'm', 2))


@harness('C06', targets=[L_ + 'MeasurementLikelihood.get_predictions_par'], level='bounded', note='histories of 3 evaluations; parameters and Wilson coefficients changed in place or replaced',
         max_paths=200)
def no_stale_predictions(v):
    """predictions are those of the arguments given now, whatever was evaluated before"""
    world(v)
    L = lh.MeasurementLikelihood(['o1', 'o2'])
    dom = (-3, 3)
    vals = [{'p': v.real('p%d' % i, dom=dom), 'q': v.real('q%d' % i, dom=dom)} for i in (0, 1)]
    if not v.sym and v.boolean('integers'):
        vals = [{'p': -1.0, 'q': 0.5}, {'p': -2.0, 'q': 0.5}]      # values with equal hashes
    ws = [v.real('w%d' % i) for i in (0, 1)]
    par, wc = dict(vals[0]), WC(ws[0])
    cp, cw = 0, 0
    for s in range(3):
        how = v.choice('step%d' % s, ['same', 'change parameters', 'new parameters', 'change coefficients', 'new coefficients'] if s else ['same'])
        if 'parameters' in how:
            cp = 1 - cp
            if how[0] == 'c':
                par.update(vals[cp])
            else:
                par = dict(reversed(list(vals[cp].items())))
        elif 'coefficients' in how:
            cw = 1 - cw
            if how[0] == 'c':
                wc.set(ws[cw])
            else:
                wc = WC(ws[cw])
        got = L.get_predictions_par(par, wc)
        for o in ('o1', 'o2'):
            v.ensure('prediction', v.eq(got[o], predicted(v, o, vals[cp], ws[cw])))
        if v.choice('modify%d' % s, [0, 1]) if s == 1 else 0:
            got['o1'] = 0                                         # the caller may do what it wants with the result



def wilson_contract(v):
    """contract of the wilson package: the running depends on the initial values and the options in force when it is computed,
    and is kept in the cache of the instance"""
    if not v.sym:
        return

    def match_run(self, scale, eft, basis, sectors='all'):
        from wilson import wcxf
        c = self._get_from_cache(sector=sectors, scale=scale, eft=eft, basis=basis)
        if c is None:
            o = self._options.get('parameters', {})
            z = next(iter(self.wc.dict.values()))
            names = sorted(wcxf.Basis[eft, basis].sectors[sectors[0]])[:2]
            x = {n: v.ufc('run %s %s %s %s' % (n, scale, eft, self._options.get('smeft_accuracy', 'integrate')), z.real, *[o.get(k, 0) for k in CKM]) for n in names}

            class C:
                dict = x
            c = C()
            self._set_cache(sectors, scale, eft, basis, c)
        return c

    def set_option(self, key, value):
        self._options.update({key: value})
        self.clear_cache()
    v.setattr(WilsonCoefficients, 'match_run', match_run)
    v.setattr(WilsonCoefficients, 'set_option', set_option)
    v.setattr(Wilson, 'set_option', set_option)


def point(k=0):
    return Wilson({'phil3_33': (1 + k)*1e-6}, scale=1000, eft='SMEFT', basis='Warsaw')


@harness('C06', targets=[E_ + 'from_wilson', E_ + 'get_wc', E_ + 'get_wcxf'], level='bounded', note='histories of 4 evaluations on one point, one change of options', max_paths=500, total=300, native_n=4)
def shared_point(v):
    """Wilson coefficients of one and the same point are those of a fresh copy of the point, whatever parameters and options were used before"""
    wilson_contract(v)
    base = flavio.default_parameters.get_central_all()
    pars = []
    for i in (0, 1):
        p = dict(base)
        for k in ('Vus', 'gamma') if v.sym else CKM:
            p[k] = v.real('%s%d' % (k, i), pos=True, dom=(0.9*base[k], 1.1*base[k]))
        pars.append(p)
    w = point()
    opt = None
    when = v.choice('options changed before', [None, 1, 3])
    for s in range(4):
        p = pars[v.choice('parameters%d' % s, [0, 1])]
        if s == when:
            opt = 'leadinglog'
            w.set_option('smeft_accuracy', opt)
        ref = point()
        if opt:
            ref.set_option('smeft_accuracy', opt)
        a = WilsonCoefficients.from_wilson(w, p).get_wc('bsmumu', 4.8, p)
        b = WilsonCoefficients.from_wilson(ref, p).get_wc('bsmumu', 4.8, p)
        v.ensure('same coefficients', set(a) == set(b) and v.and_(*[v.eq(a[k], b[k], scale=1e-2) for k in a]))


@harness('C06', targets=[E_ + 'from_wilson', E_ + 'get_wc', E_ + 'set_initial'], level='bounded', note='two changes of the initial values', max_paths=50, native_n=4)
def reused_instance(v):
    """setting new initial values forgets the old ones, and the Standard Model instance is never touched"""
    wilson_contract(v)
    par = flavio.default_parameters.get_central_all()
    w = WilsonCoefficients()
    sm = flavio.physics.eft._wc_sm
    for s in range(3):
        k = v.choice('values%d' % s, [0, 1, 2])
        z = (1 + k)*1e-6
        w.set_initial({'phil3_33': z}, 1000, eft='SMEFT', basis='Warsaw')
        f = WilsonCoefficients()
        f.set_initial({'phil3_33': z}, 1000, eft='SMEFT', basis='Warsaw')
        a, b = w.get_wc('bsmumu', 4.8, par), f.get_wc('bsmumu', 4.8, par)
        v.ensure('same coefficients', set(a) == set(b) and v.and_(*[v.eq(a[k], b[k], scale=1e-2) for k in a]))
        x = sm.get_wc('bsmumu', 4.8, par)
        v.ensure('standard model', set(x) == set(a) and all(y == 0 for y in x.values()))
        a[sorted(a)[0]] = 7
        x[sorted(x)[0]] = 7
        if v.sym:
            continue
        v.ensure('results are not shared', all(y == 0 for y in sm.get_wc('bsmumu', 4.8, par).values()))


# ------------------------------------------------------------------ inputs are not modified
FF = ['B->K* BSZ2', 'B->rho BSZ3', 'Bs->phi BSZ3', 'B->K BSZ3', 'D->pi BSZ3', 'B->D CLN', 'B->pi BCL4-LMVD', 'Lambdab->Lambda SSE2', 'Lambdab->Lambda SSE3', 'B->D* CLN',
      'Lambdab->Lambda(1520) LatticeQCD']


@harness('C06', targets=['flavio.physics.bdecays.formfactors.b_v.bsz.ff', 'flavio.physics.bdecays.formfactors.lambdab_12.sse.ff'], level='bounded',
         note='central parameter values with up to two of them changed', max_paths=100)
def form_factor_inputs(v):
    """form factors depend on their arguments only and leave the parameters as they are"""
    from flavio.classes import Implementation
    name = v.choice('form factor', FF)
    par = flavio.default_parameters.get_central_all()
    q2 = v.real('q2', dom=(1, 5))
    if v.sym:
        v.assume_(v.and_(v.ge(q2, 1), v.le(q2, 5)))
    key = {'B->K* BSZ2': 'B->K* BSZ a0_A0', 'B->rho BSZ3': 'B->rho BSZ a0_T1', 'Lambdab->Lambda SSE2': 'Lambdab->Lambda SSE a0_fA0'}.get(name)
    if key:
        par[key] = v.real('a0')
    before = dict(par)
    wc = flavio.physics.eft._wc_sm
    a = Implementation[name].get(par, wc, q2)
    v.ensure('parameters unchanged', set(par) == set(before) and all(par[k] is before[k] or par[k] == before[k] for k in before))
    if key:
        other = dict(before, **{key: v.real('b0')})
        Implementation[name].get(other, wc, q2)
    b = Implementation[name].get(par, wc, q2)
    v.ensure('same result', set(a) == set(b) and v.and_(*[v.eq(a[k], b[k]) for k in a]))


@harness('C06', targets=['flavio.physics.dileptons.partondist.get_parton_lumi', 'flavio.physics.dileptons.partondist.get_pdf'], level='bounded', native_only=True, native_n=4,
         note='run time only, parton distributions replaced by a stub')
def parton_luminosity(v):
    """parton luminosities are those of the configured set, scale and member"""
    from flavio.physics.dileptons import partondist as pd

    class P:
        @staticmethod
        def PDF(name, member):
            return (name, member)

        @staticmethod
        def PLumi(pdf, Q2):
            return (pdf, Q2)
    v.setattr(pd, 'parton', P)
    conf = flavio.config['PDF set']['dileptons']
    old = conf['name']
    try:
        for s in range(4):
            conf['name'] = 'set %d' % v.choice('set%d' % s, [0, 1])
            q, m = v.choice('q%d' % s, [10., 20.]), v.choice('m%d' % s, [0, 1])
            v.ensure('luminosity', pd.get_parton_lumi(q, m) == ((conf['name'], m), q))
    finally:
        conf['name'] = old


@harness('C06', targets=['flavio.classes.Observable.prediction_par'], level='bounded', native_only=True, native_n=1, note='one point, one observable per function, run time only')
def all_observables(v):
    """predicting any observable leaves the parameters and coefficients as they are, and repeating it gives the same number"""
    par = flavio.default_parameters.get_central_all()
    w = WilsonCoefficients()
    w.set_initial({'C9_bsmumu': 0.1, 'CVL_bcmunumu': 0.01, 'C7_bs': 0.01}, 4.8)
    before, wc = dict(par), dict(w.wc.dict)
    done, first = set(), {}
    for rep in range(2):
        for n, o in list(Observable.instances.items()):
            if o.prediction is None or o.arguments not in (None, ['q2']):
                continue
            f = o.prediction.function
            k = (f.__module__, getattr(f, '__qualname__', n), n.split('(')[0])
            if k in done:
                continue
            if not rep and k in first:
                continue
            if rep:
                done.add(k)
                if n != first.get(k, (None,))[0]:
                    done.discard(k)
                    continue
            try:
                x = o.prediction_par(par, w, *([3.] if o.arguments else []))
            except (ValueError, ZeroDivisionError):
                x = 0
            if not rep:
                first[k] = (n, x)
            else:
                y = first[k][1]
                v.ensure('same number', abs(x - y) <= 1e-9*abs(y))
            v.ensure('parameters unchanged', par == before and w.wc.dict == wc)
    v.ensure('all', len(done) > 50)
