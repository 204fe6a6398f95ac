"""Runs the harnesses of a property: obligations -> verdict, replay, evidence."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time
import traceback
import hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
PY = '/opt/venv/bin/python'
SPEC_DIR = os.path.join(VERIF, 'specs')


def load_flavio():
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')
    import flavio
    assert os.path.realpath(flavio.__file__).startswith(os.path.realpath(REPO)), flavio.__file__
    import pkgutil
    for m in ('flavio.statistics.likelihood', 'flavio.statistics.fits', 'flavio.statistics.probability',
              'flavio.statistics.functions', 'flavio.functions', 'flavio.io.instanceio'):
        try:
            importlib.import_module(m)
        except ImportError:
            pass
    return flavio


def load_specs(prop):
    from . import api
    sys.path.insert(0, SPEC_DIR)
    importlib.import_module('spec_' + prop)
    return [h for (p, n), h in api.HARNESSES.items() if p == prop]


def sym_worker(h, seed, tier, out, shard=None):
    """run in a forked child"""
    from . import api, sym as S, solve
    t0 = time.time()
    res = {'name': h.name, 'obligations': [], 'error': None, 'paths': 0, 'targets': h.targets}
    sys.setrecursionlimit(20000)
    opts = dict(h.opts)
    thorough_mul = 3 if tier == 'thorough' else 1
    tl = opts.pop('time_limit', 240) * (2 if tier == 'thorough' else 1)
    v = api.SymV(seed=seed, max_paths=opts.pop('max_paths', 300) * thorough_mul,
                 z3_ms=opts.pop('z3_ms', 5000) * thorough_mul, total=opts.pop('total', False), time_limit=tl)
    opts.pop('native_n', None)
    opts.pop('native_skip', None)
    v.shard = shard
    v.tolerated = {k['obligation'] for k in known_findings(h.prop) if k['harness'] == h.name}
    S.set_ctx(v)
    try:
        v.run_all(h)
        if not v.obligations and not v.npaths:
            res['error'] = ('vacuous', 'no feasible path: precondition unsatisfiable')
        elif not v.obligations:
            res['error'] = ('vacuous', 'no obligation generated')
        elif not v.witness:
            r, m, _ = solve.z3_check(v.pc, 5000)
            if r == 'unsat':
                res['error'] = ('vacuous', 'precondition unsatisfiable')
    except S.Enough:
        pass            # failed obligations are recorded
    except S.PathLimit as e:
        res['error'] = ('limit', str(e))
    except S.Unsupported as e:
        res['error'] = ('unsupported', '%s\n%s' % (e, traceback.format_exc()[-2500:]))
    except api.Infeasible:
        res['error'] = ('engine', 'infeasible escaped')
    except RecursionError as e:
        res['error'] = ('limit', 'recursion')
    except Exception as e:
        res['error'] = ('exception', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-2500:]))
        pts = []
        try:
            pts = v.sampler.points(v.pc, set(), 1)
        except Exception:
            pass
        res['error_model'] = dict(getattr(v, 'choices', {}), **({k: float(x) for k, x in pts[0][0].items()} if pts else {}))
    for o in v.obligations:
        r = o.result
        res['obligations'].append({
            'name': o.name, 'path': o.path, 'kind': o.kind, 'status': r.status, 'backend': r.backend,
            'time': round(r.time, 4), 'detail': r.detail,
            'model': dict(getattr(o, 'choices', {}), **(r.model or {})) if r.status != 'proved' else None,
            'goal': repr(o.goal)[:800] if r.status != 'proved' else None})
    res['paths'] = v.npaths
    res['pruned'] = v.ninfeasible
    res['definedness_assumed'] = v.definedness_assumed
    res['stats'] = dict(solve.STATS)
    res['wall'] = time.time() - t0
    res['witness'] = v.witness[:1]
    tmp = out + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(res, f, default=str)
    os.rename(tmp, out)


def run_symbolic(hs, seed, tier, jobs, scratch, budget):
    """fork one child per harness, or per share of the options of the choice named in its shard option, at most `jobs` at a time"""
    pending = []
    for h in hs:
        name, k = h.opts.get('shard', (None, 1))
        pending += [(h, (name, k, i) if name else None) for i in range(k)]
    pending.sort(key=lambda x: x[1] is None)
    running = {}
    results = {}
    t0 = time.time()
    while pending or running:
        while pending and len(running) < jobs:
            h, shard = pending.pop(0)
            out = os.path.join(scratch, 'r_%s.json' % hashlib.md5(('%s %s' % (h.name, shard)).encode()).hexdigest())
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    with open(os.devnull, 'w') as dn:
                        if not os.environ.get('VF_DEBUG'):
                            os.dup2(dn.fileno(), 2)
                            os.dup2(dn.fileno(), 1)
                    sym_worker(h, seed, tier, out, shard)
                except BaseException:
                    traceback.print_exc()
                    code = 1
                finally:
                    os._exit(code)
            running[pid] = (h, out, time.time())
        pid = st = 0
        for q in list(running):
            pid, st = os.waitpid(q, os.WNOHANG)
            if pid:
                break
        if pid == 0:
            time.sleep(0.02)
            now = time.time()
            for p, (h, out, ts) in list(running.items()):
                lim = h.opts.get('time_limit', 240) * (2 if tier == 'thorough' else 1) * 1.25 + 20
                if now - ts > lim or now - t0 > budget:
                    try:
                        os.kill(p, 9)
                    except ProcessLookupError:
                        pass
            continue
        h, out, ts = running.pop(pid)
        if os.path.exists(out):
            with open(out) as f:
                r = json.load(f)
        else:
            r = {'name': h.name, 'obligations': [], 'error': ('limit', 'worker ended without a result (status %d)' % st),
                 'paths': 0, 'targets': h.targets, 'stats': {}, 'wall': time.time() - ts, 'witness': []}
        results[h.name] = merge(results[h.name], r) if h.name in results else r
    return results


def merge(a, b):
    """results of two shares of the same harness"""
    for k in ('obligations', 'witness'):
        a[k] = a[k] + b[k]
    for k in ('paths', 'pruned', 'definedness_assumed'):
        a[k] = (a.get(k) or 0) + (b.get(k) or 0)
    a['stats'] = {k: (a.get('stats') or {}).get(k, 0) + (b.get('stats') or {}).get(k, 0) for k in {**(a.get('stats') or {}), **(b.get('stats') or {})}}
    a['wall'] = max(a['wall'], b['wall'])
    if b['error'] and not a['error']:
        a['error'], a['error_model'] = b['error'], b.get('error_model')
    return a


def native_run(prop, names, n, seed, models, out):
    """executed in a separate, unpatched process"""
    load_flavio()
    hs = {h.name: h for h in load_specs(prop)}
    from . import api
    res = {}
    for name in names:
        h = hs[name]
        nn = min(n, h.opts.get('native_n', n))
        rng = random.Random('%d/%s' % (seed, name))
        ok = rej = err = 0
        fails = []
        errs = []
        mism = None
        t0 = time.time()
        todo = [dict(m) for m in models.get(name, [])] + [None] * nn
        for vals in todo:
            if time.time() - t0 > 60:
                break
            st, used, why = api.run_native(h, rng, vals)
            if st == 'ok':
                ok += 1
            elif st == 'reject':
                rej += 1
            elif st == 'mismatch':
                mism = why
                break
            elif st == 'fail':
                fails.append({'values': used, 'why': why})
                if len(fails) >= 3:
                    break
            else:
                err += 1
                errs.append({'values': used, 'why': why})
                if len(errs) >= 3:
                    break
        res[name] = {'ok': ok, 'reject': rej, 'fails': fails, 'errors': errs, 'mismatch': mism}
    with open(out, 'w') as f:
        json.dump(res, f, default=str)


def spawn_native(prop, names, n, seed, models, scratch, tag, timeout=240):
    inp = os.path.join(scratch, 'nat_in_%s.json' % tag)
    out = os.path.join(scratch, 'nat_out_%s.json' % tag)
    with open(inp, 'w') as f:
        json.dump({'prop': prop, 'names': names, 'n': n, 'seed': seed, 'models': models, 'out': out}, f, default=str)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', MPLBACKEND='Agg')
    env.pop('PYTHONPATH', None)
    p = subprocess.Popen([PY, '-W', 'ignore', os.path.join(VERIF, 'check.py'), '--native', inp], env=env, cwd=VERIF,
                         stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL if not os.environ.get('VF_DEBUG') else None)
    return p, out


def collect_native(p, out, timeout):
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
    if os.path.exists(out):
        with open(out) as f:
            return json.load(f)
    return {}


def main_check(prop, tier, only=None):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    import tempfile
    import shutil
    scratch = tempfile.mkdtemp(prefix='vf_%s_' % prop)
    try:
        return _main(prop, tier, only, t0, seed, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop and k.get('status') == 'open']


def _main(prop, tier, only, t0, seed, scratch):
    load_flavio()
    hs = load_specs(prop)
    if only:
        hs = [h for h in hs if h.name in only]
    names = [h.name for h in hs]
    ncross = 60 if tier == 'thorough' else 12
    p, out = spawn_native(prop, names, ncross, seed, {}, scratch, 'cross')
    from . import patch
    patch.install()
    jobs = int(os.environ.get('VF_JOBS', '8'))
    budget = 580 if tier == 'quick' else 3300
    res = run_symbolic([h for h in hs if not h.opts.get('native_only')], seed, tier, jobs, scratch, budget)
    for h in hs:        # contracts evaluated at run time only (bounded stand-ins)
        if h.opts.get('native_only'):
            res[h.name] = {'name': h.name, 'obligations': [], 'error': None, 'paths': 0, 'targets': h.targets, 'stats': {}, 'wall': 0, 'witness': []}
    nat = collect_native(p, out, 200 if tier != 'quick' else max(60, min(200, 720 - (time.time() - t0))))
    # ---- undischarged obligations and errors
    bad = []
    for h in hs:
        r = res[h.name]
        for o in r['obligations']:
            if o['status'] != 'proved':
                bad.append((h, o))
        if r['error']:
            kind, txt = r['error']
            bad.append((h, {'name': 'engine:' + kind, 'kind': kind, 'status': 'unknown', 'backend': 'engine',
                            'detail': txt, 'model': r.get('error_model'), 'goal': None, 'path': -1, 'time': 0}))
        nr = nat.get(h.name)
        if nr is None:
            bad.append((h, {'name': 'native:missing', 'kind': 'native', 'status': 'unknown', 'backend': 'native',
                            'detail': 'native cross-check gave no result', 'model': None, 'goal': None, 'path': -1, 'time': 0}))
        else:
            if nr.get('mismatch'):
                bad.append((h, {'name': 'native:mismatch', 'kind': 'native', 'status': 'unknown', 'backend': 'native',
                                'detail': 'contract does not fit the code: ' + '\n'.join(map(str, nr['mismatch'])), 'model': None,
                                'goal': None, 'path': -1, 'time': 0}))
            elif not nr['ok'] and not nr['fails'] and not nr['errors'] and not h.opts.get('native_skip'):
                bad.append((h, {'name': 'native:all-rejected', 'kind': 'native', 'status': 'unknown', 'backend': 'native',
                                'detail': 'no sampled input satisfied the precondition on CPython', 'model': None, 'goal': None,
                                'path': -1, 'time': 0}))
            for f in nr['fails'] + nr['errors']:
                bad.append((h, {'name': 'native:' + str(f['why'][0]), 'kind': 'native', 'status': 'refuted',
                                'backend': 'native', 'detail': '\n'.join(map(str, f['why'])), 'model': f['values'], 'goal': None,
                                'path': -1, 'time': 0, 'confirmed': True}))
    # ---- replay
    groups = {}
    for h, o in bad:
        groups.setdefault(h.name, []).append((h, o))
    confirmed = {}
    if groups:
        models = {}
        need = []
        for n, l in groups.items():
            if any(o.get('confirmed') for _, o in l):
                o = [o for _, o in l if o.get('confirmed')][0]
                confirmed[n] = {'values': o['model'], 'why': [o['name'], o['detail']]}
                continue
            need.append(n)
            models[n] = [o['model'] for _, o in l if o.get('model')][:12]
        if need:
            p, out = spawn_native(prop, need, 300, seed + 1, models, scratch, 'replay')
            rep = collect_native(p, out, 300 if tier != 'quick' else max(20, min(300, 820 - (time.time() - t0))))
            for n in need:
                x = rep.get(n, {})
                if x.get('fails'):
                    confirmed[n] = x['fails'][0]
                elif x.get('errors'):
                    confirmed[n] = x['errors'][0]
    # ---- known findings
    kf = known_findings(prop)
    viol = []
    kfhit = set()
    for n, l in groups.items():
        rest = []
        for h, o in l:
            k = [x for x in kf if x['harness'] == n and (o['name'] == x['obligation'] or o['name'].startswith('native:') and x['obligation'] in o['detail'])]
            if k:
                kfhit.add(json.dumps(k[0], sort_keys=True))
            else:
                rest.append((h, o))
        if rest:
            viol.append((n, rest))
    for k in sorted(kfhit):
        k = json.loads(k)
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    # ---- replay files
    rdir = os.path.join(VERIF, 'replays')
    code = 0
    for n, l in viol:
        code = 1
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s_%s.json' % (prop, ''.join(c if c.isalnum() or c in '-_' else '_' for c in n)))
        c = confirmed.get(n)
        with open(path, 'w') as f:
            json.dump({'property': prop, 'harness': n, 'targets': l[0][0].targets,
                       'failed_obligations': [{k: o[k] for k in ('name', 'kind', 'status', 'backend', 'detail', 'goal', 'model')}
                                              for _, o in l][:20],
                       'failing_input': c['values'] if c else None, 'observed': c['why'] if c else None,
                       'replay_cmd': 'python3 /verif/check.py --replay ' + path}, f, indent=1, default=str)
        print('obligation failed: %s/%s: %s' % (prop, n, ', '.join(sorted(set(o['name'] for _, o in l)))[:300]))
        for _, o in l[:2]:
            print('   [%s/%s] %s' % (o['status'], o['backend'], str(o['detail'])[-700:].replace('\n', '\n      ')))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if c else ' no-failing-input-found'))
    write_evidence(prop, tier, seed, hs, res, nat, viol, t0, len(kfhit))
    nob = sum(len(r['obligations']) for r in res.values())
    npr = sum(1 for r in res.values() for o in r['obligations'] if o['status'] == 'proved')
    if nob == 0 and not all(h.opts.get('native_only') for h in hs):
        print('no obligations generated')
        code = code or 2
    print('%s: %d harnesses, %d obligations, %d discharged, %d paths, %.1f s' %
          (prop, len(hs), nob, npr, sum(r['paths'] for r in res.values()), time.time() - t0))
    if os.environ.get('VF_VERBOSE'):
        for h in hs:
            r = res[h.name]
            print('   %-40s paths=%-4d obl=%-4d proved=%-4d %.1fs native ok=%s rej=%s' % (
                h.name, r['paths'], len(r['obligations']), sum(o['status'] == 'proved' for o in r['obligations']),
                r['wall'], nat.get(h.name, {}).get('ok'), nat.get(h.name, {}).get('reject')))
    return code


TRUSTED = [
    'CPython 3.12 interpreter executing the unmodified bytecode of /repo (only module-global references to '
    'math/cmath/numpy/scipy and the builtins float/complex/isinstance are rebound to symbolic-aware models)',
    '/verif/vf/models.py: analytic models of math, cmath, numpy and scipy.stats functions on symbolic arguments',
    '/verif/vf/ring.py normal forms (own back end), /verif/vf/solve.py sign rules, z3 5.3.2, cvc5',
    '/verif/vf/sym.py path explorer (every branch on a symbolic condition is split; a branch is dropped only when z3 or '
    'the sign rules prove it infeasible)',
]


def write_evidence(prop, tier, seed, hs, res, nat, viol, t0, nkf):
    from . import propinfo
    obl = [o for r in res.values() for o in r['obligations']]
    proof_h = {h.name for h in hs if h.level == 'proof'}
    pobl = [o for n, r in res.items() if n in proof_h for o in r['obligations']]
    bobl = [o for n, r in res.items() if n not in proof_h for o in r['obligations']]
    back = {}
    for o in obl:
        if o['status'] == 'proved':
            back[o['backend']] = back.get(o['backend'], 0) + 1
    st = {}
    info = propinfo.INFO.get(prop, {})
    for r in res.values():
        for k, x in (r.get('stats') or {}).items():
            st[k] = round(st.get(k, 0) + x, 3)
    targets = sorted({t for h in hs for t in h.targets})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': info.get('level', 'proof'),
        'coverage': {
            'obligations': len(pobl), 'discharged': sum(o['status'] == 'proved' for o in pobl),
            'bounded_obligations': len(bobl), 'bounded_discharged': sum(o['status'] == 'proved' for o in bobl),
            'bounded_runtime_contract_evaluations': sum(nat.get(h.name, {}).get('ok', 0) for h in hs if h.opts.get('native_only')),
            'bounded_harnesses': {h.name: h.note for h in hs if h.level != 'proof'},
            'checker_cmd': 'python3 /verif/check.py %s' % prop,
            'trusted_base': TRUSTED,
            'functions_under_contract': targets,
            'callee_contracts_used': sorted({u for h in hs for u in h.uses}),
            'discharged_by_backend': back,
            'solver_seconds': st,
            'paths_explored': sum(r['paths'] for r in res.values()),
            'definedness_side_conditions_assumed': sum(r.get('definedness_assumed', 0) or 0 for r in res.values()),
            'harnesses': [{'name': h.name, 'level': h.level, 'paths': res[h.name]['paths'],
                           'obligations': len(res[h.name]['obligations']),
                           'discharged': sum(o['status'] == 'proved' for o in res[h.name]['obligations']),
                           'reachability_witness': bool(res[h.name].get('witness')),
                           'cpython_crosscheck': {'runs': nat.get(h.name, {}).get('ok'), 'rejected': nat.get(h.name, {}).get('reject')},
                           'wall_s': round(res[h.name].get('wall', 0), 2), 'note': h.note} for h in hs],
        },
        'assumptions': GENERIC_ASSUMPTIONS + info.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
    }
    if not pobl:
        ev['level'] = 'other'
        ev['coverage']['explanation'] = ('deductive: %d obligations over all real inputs discharged for fixed sizes of the data structures (bounds stated per '
                                         'harness in bounded_harnesses); %d run-time contract evaluations' %
                                         (len(bobl), ev['coverage']['bounded_runtime_contract_evaluations']))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


GENERIC_ASSUMPTIONS = [
    'machine floating point is treated as exact real arithmetic; a float constant denotes the simplest rational within 3 ulp of it',
    'partial correctness: divisors are assumed nonzero and arguments of sqrt/log in their domain wherever the code '
    'evaluates them (otherwise the code raises and makes no claim)',
    'callee contracts listed under callee_contracts_used replace the callee inside the harness that names them',
]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--native')
    ap.add_argument('--replay')
    ap.add_argument('--only', nargs='*')
    a = ap.parse_args()
    if a.native:
        with open(a.native) as f:
            d = json.load(f)
        native_run(d['prop'], d['names'], d['n'], d['seed'], d['models'], d['out'])
        return 0
    if a.replay:
        with open(a.replay) as f:
            d = json.load(f)
        if not d['failing_input']:
            print('no failing input recorded; failed obligations:')
            print(json.dumps(d['failed_obligations'], indent=1))
            return 1
        load_flavio()
        from . import api
        hs = {h.name: h for h in load_specs(d['property'])}
        st, used, why = api.run_native(hs[d['harness']], random.Random(0), d['failing_input'])
        print('replay on /repo: %s %s' % (st, why))
        return 0 if st in ('ok', 'reject') else 1
    return main_check(a.prop, a.tier, a.only)
