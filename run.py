#!/opt/venv/bin/python
"""run.py PROPERTY [--tier quick|thorough] [--only h1,h2] [--replay FILE]"""
import argparse
import os
import sys

os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('MPLCONFIGDIR', '/opt/venv/mplconfig')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', '-B'] +
             sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def cli():
    p = argparse.ArgumentParser()
    p.add_argument('prop')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    p.add_argument('--only')
    p.add_argument('--jobs', type=int)
    p.add_argument('--deadline', type=float)
    p.add_argument('--serve', action='store_true')
    p.add_argument('--replay')
    p.add_argument('-v', action='store_true')
    a = p.parse_args()
    from symq import runner
    if a.serve:
        return runner.serve(a.prop)
    if a.replay:
        return runner.replay(a.prop, a.replay)
    try:
        return runner.main(a.prop, a.tier,
                           int(os.environ.get('VERIF_SEED', '1')),
                           only=a.only, jobs=a.jobs, deadline=a.deadline,
                           verbose=a.v)
    except Exception:
        import traceback
        traceback.print_exc()
        print('ERROR of the check (no verdict)')
        return 3


if __name__ == '__main__':
    sys.exit(cli())
