#!/usr/bin/env python3
"""Entry point: check.py <PROPERTY> | --replay FILE.  Re-executes itself in flavio's environment."""
import os
import sys
PY = '/opt/venv/bin/python'
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv'):
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ.pop('PYTHONPATH', None)
    os.execv(PY, [PY, '-W', 'ignore'] + sys.argv)
for k, val in (('OMP_NUM_THREADS', '1'), ('MPLBACKEND', 'Agg'), ('PYTHONHASHSEED', '0')):
    os.environ.setdefault(k, val)
sys.dont_write_bytecode = True
sys.path.append(VT)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf.run import main
sys.exit(main())
