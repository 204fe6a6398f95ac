"""setup_cmd: checks that the verifier accepts true contracts and rejects false ones on toy functions."""
import os
import sys
PY = '/opt/venv/bin/python'
os.environ.setdefault('OMP_NUM_THREADS', '1')
if os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv'):
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ.pop('PYTHONPATH', None)
    os.execv(PY, [PY, '-W', 'ignore'] + sys.argv)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from vf import run
run.load_flavio()
from vf import api, patch, sym as S
import cmath
patch.install()


def attempt(f, **o):
    h = api.Harness('T', 't', f, [], [], 'proof', {}, '')
    v = api.SymV(seed=1, max_paths=100, z3_ms=4000, total=False, time_limit=60)
    S.set_ctx(v)
    v.run_all(h)
    return [x.result.status for x in v.obligations]


def t_square(v):
    x = v.real('x')
    v.ensure('nonneg', v.ge(x*x - 2*x + 1, 0))


def t_cplx(v):
    z = v.cplx('z')
    v.ensure('abs', v.eq(abs(z)**2, z.real**2 + z.imag**2))


def f_square(v):
    x = v.real('x')
    v.ensure('nonneg', v.ge(x*x - 2*x + v.num('0.999'), 0))


def f_conj(v):
    z, w = v.cplx('z'), v.cplx('w')
    v.ensure('conj', v.eq((z*w).real, (z*w.conjugate()).real))


def t_branch(v):
    x = v.real('x')
    y = x if x > 0 else -x
    v.ensure('abs', v.ge(y, 0))


def f_branch(v):
    x = v.real('x')
    y = x if x > -1 else -x
    v.ensure('abs', v.ge(y, 0))


def t_ckm(v):
    from flavio.physics import ckm
    a, b, c, d = (v.real(n, 0, 1.5) for n in 'abcd')
    V = ckm.ckm_standard(a, b, c, d)
    v.ensure('unit', v.eq((V @ V.conj().T)[0, 1], 0))


def f_ckm(v):
    from flavio.physics import ckm
    a, b, c, d = (v.real(n, 0, 1.5) for n in 'abcd')
    V = ckm.ckm_standard(a, b, c, d)
    v.ensure('unit', v.eq((V @ V.T)[0, 1], 0))


bad = 0
for n, f in list(globals().items()):
    if n[:2] in ('t_', 'f_') and callable(f):
        st = attempt(f)
        ok = bool(st) and (all(s == 'proved' for s in st) if n[0] == 't' else any(s != 'proved' for s in st))
        print('selftest %-10s %s %s' % (n, st, 'ok' if ok else 'WRONG'))
        bad += not ok
sys.exit(1 if bad else 0)
