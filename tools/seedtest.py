"""confirm planted bugs: build + stable tests pass, demo 0 -> nonzero, and whether the check catches it.
usage: seedtest.py [--nocheck] [--notests] ID..."""
import json, os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
opts = [a for a in sys.argv[1:] if a.startswith('--')]
ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir(V + '/seeded'))
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def one(i):
    d = '%s/seeded/%s' % (V, i)
    t = '/tmp/seedtest/' + i
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(t)
    subprocess.check_call(['cp', '-a', '/repo', t + '/repo'])
    r = t + '/repo'
    meta = json.load(open(d + '/meta.json'))
    out = [i, meta['property']]
    a = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=r, capture_output=True, text=True)
    if a.returncode:
        return i + ' APPLY FAILED ' + a.stderr
    d0 = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True, timeout=300)
    d1 = subprocess.run(['bash', d + '/demo.sh'], cwd=r, capture_output=True, text=True, timeout=300)
    out.append('demo %d->%d' % (d0.returncode, d1.returncode))
    if d0.returncode:
        out.append((d0.stdout + d0.stderr)[-600:])
    if d1.returncode:
        out.append('[' + (d1.stdout + d1.stderr).strip().split('\n')[-1][:150] + ']')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/vp/mplconfig', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0', PYTHONPATH=r)
    if '--notests' not in opts:
        subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--ignore=flavio/physics/dileptons',
                        '-o', 'junit_family=xunit2', '--junitxml=' + t + '/j.xml', 'flavio'], cwd=r, env=env, capture_output=True)
        subprocess.run(['python3', '/opt/vp/results.py', t + '/o.json', 'junit:' + t + '/j.xml'], capture_output=True)
        p = set(json.load(open(t + '/o.json'))['passed'])
        miss = stable - p
        out.append('tests ok' if not miss else 'TESTS FAIL %s' % sorted(miss)[:4])
    if '--nocheck' not in opts:
        c = subprocess.run(['python3', V + '/check.py', meta['property']], env=dict(os.environ, VF_REPO=r, VF_JOBS='3'), capture_output=True, text=True)
        vl = [l for l in c.stdout.split('\n') if 'VIOLATION property=%s' % meta['property'] in l]
        out.append('CAUGHT %s' % ' | '.join(x.split('/')[-1] for x in vl) if c.returncode == 1 and vl else 'MISSED rc=%d' % c.returncode)
    shutil.rmtree(t, ignore_errors=True)
    return '  '.join(map(str, out))


with ThreadPoolExecutor(4) as ex:
    for x in ex.map(one, ids):
        print(x, flush=True)
