"""Offline sanity check of what the checks need."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import glob
import gmpy2  # noqa: F401
import numpy  # noqa: F401
vt = glob.glob('/opt/veriftools/pyvenv/lib/python3*/site-packages')
sys.path += vt
import z3  # noqa: E402
from symq import engine, env, poly, runner, shims  # noqa: E402,F401
s = z3.Solver()
x = z3.Real('x')
s.add(x * x == 2)
assert s.check() == z3.sat
for d in ('evidence', 'replays'):
    os.makedirs(os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), d), exist_ok=True)
print('ready: z3', z3.get_version_string())
