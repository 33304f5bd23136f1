'''setup_cmd: nothing to build; check that the pieces the checks need are there.'''
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
sys.exit(subprocess.call(['/opt/venv/bin/python', '-B', '-c', 'import numpy, scipy, h5py, mpi4py, ruamel.yaml, matplotlib, dga'],
                         env=dict(os.environ, MPLBACKEND='Agg')))
