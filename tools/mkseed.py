"""tools/seeds.py -> seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json}   (usage: mkseed.py [ID..])"""
import json, os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeds import SEEDS
OUT = os.path.join(os.path.dirname(HERE), 'seeded')
for s in SEEDS:
    if sys.argv[1:] and s['id'] not in sys.argv[1:]:
        continue
    d = os.path.join(OUT, s['id'])
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    subprocess.check_call(['git', 'clone', '-q', '--shared', '/repo', t + '/r'])
    for f, old, new in s['edits']:
        p = os.path.join(t, 'r', f)
        x = open(p).read()
        assert x.count(old) == 1, (s['id'], f, x.count(old), old)
        open(p, 'w').write(x.replace(old, new))
    diff = subprocess.check_output(['git', 'diff'], cwd=t + '/r')
    open(d + '/patch.diff', 'wb').write(diff)
    shutil.rmtree(t)
    open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1\n'
                                    'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
