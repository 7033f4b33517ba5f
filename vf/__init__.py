import os, sys, warnings
REPO = os.environ.get('VF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault('NUMBA_FUNCTION_CACHE_SIZE', '0')
for _v in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS'):
    os.environ.setdefault(_v, '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
    sys.path.append(VT)      # hypothesis lives there; last, so the venv's own packages win
warnings.simplefilter('ignore')
