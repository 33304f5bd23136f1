'''Work on planted bugs in a scratch copy:  bug.py new ID (edit /tmp/bugrepo, then) | diff ID | try ID [check ...]
try: apply to a fresh copy, run the demo on both trees and the named checks on the patched one.'''
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/bugrepo'


def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)


def fresh():
    if not os.path.isdir(W): sh(f'git clone -q /repo {W}')
    sh(f'cd {W} && git fetch -q && git reset -q --hard origin/HEAD && git clean -fdxq')


def main():
    cmd, bid = sys.argv[1:3]
    d = f'{V}/seeded/{bid}'
    if cmd == 'try':
        checks = sys.argv[3:] or [json.load(open(f'{d}/meta.json'))['property']]
        fresh()
        r = sh(f'bash {d}/demo.sh', cwd=W)
        print(f'{bid} demo clean rc={r.returncode}', '' if r.returncode == 0 else r.stdout[-1500:] + r.stderr[-1500:])
        r = sh(f'git apply {d}/patch.diff', cwd=W)
        if r.returncode: return print('PATCH DOES NOT APPLY', r.stderr)
        r = sh(f'bash {d}/demo.sh', cwd=W)
        print(f'{bid} demo patched rc={r.returncode}', r.stdout[-300:].strip() + r.stderr[-200:].strip())
        if '--tests' in checks:
            checks.remove('--tests')
            sh(f'PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 '
               f'OMPI_MCA_plm=isolated PYTHONPATH=/opt/vp/plugin:{W}/src /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p vp_dgapy '
               f'-W ignore -n 8 -o junit_family=xunit2 --junitxml=/tmp/bugtests.xml --continue-on-collection-errors tests', cwd=W)
            sh('python3 /opt/vp/results.py /tmp/bugtests.json junit:/tmp/bugtests.xml')
            res = json.load(open('/tmp/bugtests.json'))
            print('tests not passing:', [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t not in str(res['passed'])])
        for c in checks:
            if c == 'none': continue
            r = sh(f'python3 check.py {c}', cwd=V, env=dict(os.environ, DGA_REPO=W))
            print(f'{bid} check {c} rc={r.returncode}', '\n   '.join(x[:300] for x in r.stdout.strip().splitlines()[-5:]))
    elif cmd == 'edit':
        # edit ID property file <<< python code using s
        fresh()
        os.makedirs(d, exist_ok=True)
        spec = json.load(sys.stdin)
        for f, pairs in spec['edits'].items():
            p = f'{W}/src/dga/{f}' if not f.startswith('src') else f'{W}/{f}'
            s = open(p).read()
            for a, b in pairs:
                assert s.count(a) == 1, (f, a, s.count(a))
                s = s.replace(a, b)
            open(p, 'w').write(s)
        open(f'{d}/patch.diff', 'w').write(sh('git diff', cwd=W).stdout)
        json.dump({k: spec[k] for k in ('property', 'needs', 'what_it_breaks')}, open(f'{d}/meta.json', 'w'), indent=1)
        for f in ('demo.sh', 'demo_lib.py'): shutil.copy(f'{V}/tools/demo/{f}', d)
        open(f'{d}/demo.py', 'w').write(spec['demo'].lstrip('\n'))
        fresh()


main()
