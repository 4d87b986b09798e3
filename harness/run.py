"""Usage: run.py PROPERTY [--replay FILE | --only WORKLOAD]"""
import sys, os
here = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [REPO, os.path.dirname(here)]
sys.path[:] = [p for p in sys.path if p not in ('', here)]
# Oracle-only dependency (arbitrary precision arithmetic), pure Python:
_mp = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
sys.path.append(_mp)
import mpmath
sys.path.remove(_mp)
import warnings
warnings.simplefilter('ignore')
import importlib
from harness import fw
sys.exit(fw.main(importlib.import_module('harness.props.' + sys.argv[1].lower()),
                 sys.argv[2:]))
