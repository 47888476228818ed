"""Entry point: run.py <PROPERTY> [--tier quick|thorough] [--replay FILE]

Re-executes itself in a fixed environment (hash seed, no byte code written
next to the sources, the library imported from /repo's working tree)."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PYTHON = '/opt/venv/bin/python'
PYVENV = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

if os.environ.get('VERIF_CHILD') != '1':
    env = dict(os.environ)
    env['VERIF_CHILD'] = '1'
    env['PYTHONHASHSEED'] = '0'
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONWARNINGS'] = 'ignore'
    env['PYTHONPATH'] = REPO
    env['OMP_NUM_THREADS'] = env['OPENBLAS_NUM_THREADS'] = '1'
    os.execve(PYTHON, [PYTHON, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
if PYVENV not in sys.path:
    sys.path.append(PYVENV)
import warnings                                                 # noqa: E402
warnings.simplefilter('ignore')
import numpy, vectormath, traitlets, png, six                   # noqa: E402,E401,F401
sys.pycache_prefix = '/nonexistent'     # compile the library from source, always
import properties, properties.extras                            # noqa: E402,E401,F401
sys.pycache_prefix = None
from vlib import harness                                        # noqa: E402

sys.exit(harness.main())
