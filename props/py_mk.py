import os, sys
from vf import build
def mk(d): return lambda: [sys.executable, os.path.join(build.VERIF, "harness/py/main.py"), d]
