"""C10 citations: exactly the papers whose results were used in a scope, whatever was evaluated before"""
import ctypes
import inspect
import numpy as np
from vf.api import harness
from vf.stubs import fresh_registry, WC
import flavio
from flavio import functions as fn
from flavio.classes import Observable, Measurement, Prediction

C_ = 'flavio.citations.'
Citations = type(flavio.citations)
KEYS = ['Inami:1980fz', 'Kuno:1999jp', 'Pich:2013lsa']



def observe(v, what, c, expected):
    v.ensure(what, set(c.set) == set(expected))
    v.ensure('views agree', sorted(c) == sorted(expected) and sorted(filter(None, str(c).split(','))) == sorted(expected) and c.string == str(c))


@harness('C10', targets=[C_ + 'Citations.register', C_ + 'Citations.clear', C_ + 'Citations.reset', C_ + 'Citations.set', C_ + 'Citations.__iter__', C_ + 'Citations.__str__',
                         C_ + 'CitationScope.__enter__', C_ + 'CitationScope.__exit__'], level='bounded', note='histories of 4 operations on a collection and nested scopes, 3 papers', max_paths=3000, total=600)
def scopes(v):
    """a scope starts empty, collects exactly the papers registered inside it and leaves the enclosing collection as it was, also after an error"""
    initial = KEYS[2:] if v.boolean('initial') else []
    v.setattr(flavio, 'citations', Citations(list(initial)))
    stack = [[flavio.citations, set(initial), set(initial), None]]
    for s in range(4):
        ops = ['register 0', 'register 1', 'clear', 'reset', 'enter'] + (['leave', 'leave by error'] if len(stack) > 1 else [])
        op = v.choice('step%d' % s, ops)
        top = stack[-1]
        if op[:8] == 'register':
            flavio.citations.register(KEYS[int(op[-1])])
            top[1].add(KEYS[int(op[-1])])
        elif op == 'clear':
            flavio.citations.clear()
            top[1].clear()
        elif op == 'reset':
            flavio.citations.reset()
            top[1] = set(top[2])
        elif op == 'enter':
            sc = flavio.citations.collect()
            c = sc.__enter__()
            v.ensure('the scope is current', c is flavio.citations and all(c is not t[0] for t in stack))
            stack.append([c, set(), set(), sc])
        else:
            e = RuntimeError('inside')
            r = top[3].__exit__(*((None, None, None) if op == 'leave' else (RuntimeError, e, None)))
            v.ensure('errors propagate', not r)
            stack.pop()
            observe(v, 'collected', top[0], top[1])
        v.ensure('current', flavio.citations is stack[-1][0])
        for t in stack:
            observe(v, 'used papers', t[0], t[1])


@harness('C10', targets=[C_ + 'Citations.__init__', C_ + 'Citations.register'], level='bounded', note='collections of up to 3 papers', max_paths=100)
def known_papers(v):
    """only known papers, or those given at the start, can be cited; collections are independent of each other"""
    new = ['Nobody:2050abc', 'Someone:1900xyz']
    init = [k for i, k in enumerate(new) if v.boolean('initial %d' % i)]
    a, b = Citations(list(init)), Citations()
    v.ensure('initial', set(a.set) == set(init) and not b.set)
    k = v.choice('key', KEYS[:1] + new)
    for c, ok in ((a, k in KEYS or k in init), (b, k in KEYS)):
        before = set(c.set)
        try:
            c.register(k)
            v.ensure('unknown papers are rejected', ok)
            v.ensure('registered', set(c.set) == before | {k})
        except KeyError:
            v.ensure('known papers are accepted', not ok)
            v.ensure('unchanged', set(c.set) == before)
    a.clear()
    v.ensure('independent', not a.set and set(b.set) == ({k} & set(KEYS)))


@harness('C10', targets=['flavio.classes.Observable.theory_citations'], uses=['flavio.functions.sm_prediction'], level='bounded', note='two evaluations in any order, 3 papers', max_paths=400)
def theory_citations(v):
    """the papers cited for an observable are those its prediction uses for these arguments, and the collection of the session is untouched"""
    fresh_registry(v)
    v.setattr(flavio, 'citations', Citations(KEYS[2:]))
    v.setattr(flavio.physics.eft, '_wc_sm', WC(v.real('wsm')))

    class Par:
        def get_central_all(self):
            return {'p': v.real('p')}
    v.setattr(flavio, 'default_parameters', Par())

    def make(name, arguments, key):
        Observable(name, arguments=arguments)

        def f(wc_obj, par, *a, **kw):
            flavio.citations.register(key)
            x = a[0] if a else kw.get('q2', par['p'])
            if x > 0:
                flavio.citations.register(KEYS[2])
            if x > 10:
                raise ValueError('outside the range')
            return x
        Prediction(name, f)
    make('o', None, KEYS[0])
    make('oq', ['q2'], KEYS[1])
    for s in range(2):
        how = v.choice('call %d' % s, ['o', 'positional', 'named'])
        q = v.real('q%d' % s, dom=(-20, 20))
        x = v.real('p') if how == 'o' else q
        exp = {KEYS[0] if how == 'o' else KEYS[1]}
        try:
            got = Observable['o'].theory_citations() if how == 'o' else Observable['oq'].theory_citations(q) if how == 'positional' else Observable['oq'].theory_citations(q2=q)
        except ValueError:
            v.ensure('errors of the prediction', v.gt(x, 10))
        else:
            v.ensure('cited', got == (exp | {KEYS[2]}) if x > 0 else got == exp)
        v.ensure('session', set(flavio.citations.set) == set(KEYS[2:]))


# ------------------------------------------------------------------ run-time evaluation on all observables
ARGS = {'q2': 3., 'E': 200., 'Eplus': 1.}


@harness('C10', targets=['flavio.physics.bdecays.matrixelements.F_17', 'flavio.physics.bdecays.matrixelements.F_19', 'flavio.physics.bdecays.matrixelements.F_27',
                         'flavio.physics.bdecays.matrixelements.F_29', 'flavio.physics.bdecays.matrixelements.SeidelA', 'flavio.physics.bdecays.matrixelements.SeidelB',
                         'flavio.physics.running.running.get_mb_KS', 'flavio.physics.running.running.get_mc_KS'],
         level='bounded', native_only=True, native_n=3, note='functions with cached results at random arguments, contract evaluated at run time only')
def cached_functions(v):
    """functions whose results are cached cite their papers on every call"""
    from flavio.physics.bdecays import matrixelements as me
    from flavio.physics.running import running
    par = flavio.default_parameters.get_central_all()
    x, y, z = v.real('x', dom=(0.5, 1)), v.real('y', dom=(0.05, 0.1)), v.real('z', dom=(0.05, 0.3))
    for f, a in [(me.F_17, (x, y, z)), (me.F_19, (x, y, z)), (me.F_27, (x, y, z)), (me.F_29, (x, y, z)), (me.SeidelA, (z, 4.8, x)), (me.SeidelB, (z, 4.8, x)),
                 (running.get_mb_KS, (par, x)), (running.get_mc_KS, (par, x))]:
        seen = []
        for i in range(2):
            with flavio.citations.collect() as c:
                f(*a)
            seen.append(set(c.set))
        v.ensure('cited', bool(seen[0]))
        v.ensure('cited again', seen[0] == seen[1])


@harness('C10', targets=['flavio.classes.Observable.theory_citations'], level='bounded', native_only=True, native_n=1,
         note='one evaluation of one observable per function and arguments, run time only')
def all_observables(v):
    """every observable cites the same papers however often it is evaluated"""
    done = set()
    for n, o in list(Observable.instances.items()):
        if o.prediction is None or o.arguments not in (None, ['q2']):
            continue
        f = o.prediction.function
        k = (getattr(f, '__module__', ''), getattr(f, '__qualname__', n), o.tex[:0], n.split('(')[0])
        if k in done:
            continue
        done.add(k)
        a = [ARGS[x] for x in o.arguments or []]
        try:
            s = [o.theory_citations(*a) for i in range(2)]
        except (ValueError, ZeroDivisionError):
            continue
        v.ensure('same papers', s[0] == s[1])


@harness('C10', targets=['flavio.citations.Citations.register'], level='bounded', native_only=True, native_n=2, note='run time only')
def parallel(v):
    """papers used in parallel evaluations are collected"""
    fresh_registry(v)
    Observable('o')

    def f(wc_obj, par):
        flavio.citations.register(KEYS[0])
        return par['m_B0']
    Prediction('o', f)
    with flavio.citations.collect() as c:
        fn.sm_uncertainty('o', N=4, threads=2)
    v.ensure('collected', set(c.set) == {KEYS[0]})
