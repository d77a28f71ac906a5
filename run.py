#!/usr/bin/env python3
"""run.py <PROPERTY> [quick|thorough]   |   run.py --replay <file>"""
import os
import sys

PY = '/opt/venv/bin/python'
ENV = {'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'PYTHONNOUSERSITE': '1', 'MPLBACKEND': 'Agg',
       'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1', 'LC_ALL': 'C.UTF-8',
       'GRPC_VERBOSITY': 'NONE', 'VERIF_CHILD': '1'}

if os.environ.get('VERIF_CHILD') != '1':
    env = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'PYTHONSTARTUP')}
    env.update(ENV)
    if os.path.isdir('/opt/venv/mplconfig'):
        env['MPLCONFIGDIR'] = '/opt/venv/mplconfig'
    sys.stdout.flush()
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core  # noqa: E402

code = core.main(sys.argv[1:])
sys.stdout.flush()
os._exit(code)
