"""CONTRACTS.md: every contract harness with the functions it puts under contract (generated)"""
import glob
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from vf import run, api
run.load_flavio()
sys.path.insert(0, os.path.join(V, 'specs'))
out = ['# Contracts under /verif/specs (generated by tools/mkcontracts.py)\n']
for p in sorted(glob.glob(os.path.join(V, 'specs', 'spec_*.py'))):
    c = os.path.basename(p)[5:-3]
    hs = run.load_specs(c)
    t = {x for h in hs for x in h.targets}
    out.append('\n## %s: %d harnesses, %d functions or classes under contract\n' % (c, len(hs), len(t)))
    for h in hs:
        d = ' '.join((h.f.__doc__ or h.name.replace('_', ' ')).split())
        out.append('- **%s** [%s%s] %s  \n  on %s%s' % (h.name, h.level, ', run time only' if h.opts.get('native_only') else '', d,
                   ', '.join('`%s`' % x.replace('flavio.', '', 1) for x in h.targets), ('  \n  note: ' + h.note) if h.note else ''))
open(os.path.join(V, 'CONTRACTS.md'), 'w').write('\n'.join(out) + '\n')
