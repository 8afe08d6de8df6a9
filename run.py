#!/opt/venv/bin/python
"""Entry point: run.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--scale X] [--shards N]

Exit 0: the property held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: the check itself failed.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMEXPR_NUM_THREADS'):
    os.environ[_v] = '1'
os.environ['MPLBACKEND'] = 'Agg'
os.environ['TQDM_DISABLE'] = '0'
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)
sys.dont_write_bytecode = True
sys.path[:0] = [os.environ.get('VERIF_REPO', '/repo'), os.path.join(HERE, 'vendor'), HERE]

from pbt import core  # noqa: E402

if __name__ == '__main__':
    sys.exit(core.main(sys.argv[1:]))
