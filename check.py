#!/opt/venv/bin/python
'''check.py Cxx [--replay FILE] [--tier quick|thorough] [--budget S] [--one INDEX]'''
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMEXPR_NUM_THREADS'):
    os.environ[v] = '1'
if os.environ.get('PYTHONHASHSEED') != '0' or os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv'):
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', '-B', os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)
from sim import driver  # noqa: E402

if __name__ == '__main__':
    pid = sys.argv.pop(1)
    mod = importlib.import_module('checks.' + pid.lower())
    sys.exit(driver.main(mod.CHECK))
