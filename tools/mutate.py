'''Mutation sensitivity of the checks.  mutate.py cover N | sites | run SEED COUNT N [file-regex]  (state in /tmp/mutate)
cover: which lines of the repository each check executes; run: random small changes on covered lines, every check that executes the line
runs N cases on it until one reports a violation. Survivors are listed for a manual look.'''
import ast
import collections
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = '/tmp/mutate'
BASE = T + '/base'  # copy of the repository the run works on
PY = '/opt/venv/bin/python'
SKIP = ('plotting.py', 'high_level_plotting.py', 'plot_specs.py', 'pade_aux.py', '__init__.py')
ORDER = 'C23 C08 C19 C20 C07 C06 C05 C22 C14 C03 C18 C13 C21 C12 C11 C10 C16 C09 C15 C17 C02 C01 C04 C24'.split()

RUNNER = r'''
import os, sys, json, importlib
sys.path.insert(0, %r)
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'): os.environ[v] = '1'
cid, n, cov = sys.argv[1], int(sys.argv[2]), sys.argv[3] if len(sys.argv) > 3 else None
from sim import driver, env
chk = importlib.import_module('checks.' + cid.lower()).CHECK
seen = set()
if cov:
    mon = sys.monitoring
    mon.use_tool_id(2, 'cov')
    def line(code, no):
        if '/src/dga/' in code.co_filename: seen.add((os.path.basename(code.co_filename), no))
        return mon.DISABLE
    mon.register_callback(2, mon.events.LINE, line)
    mon.set_events(2, mon.events.LINE)
env.setup()
out = None
dn = os.open(os.devnull, os.O_WRONLY); keep = os.dup(1); os.dup2(dn, 1)
for i in range(n):
    case = driver.case_for(chk, int(os.environ.get('MUT_SEED', 1)), i, 'quick')
    try: r = driver._run_case(chk, case, None)
    except BaseException as e: out = ('harness', repr(e)[:200]); break
    if r.violations: out = (i, str(r.violations[0])[:300]); break
if cov: json.dump(sorted(seen), open(cov, 'w'))
os.write(keep, (json.dumps(out) + '\n').encode())
os._exit(0)
''' % V


def run_check(cid, n, repo, cov=None, timeout=600, tmp=None):
    e = dict(os.environ, DGA_REPO=repo, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    try:
        p = subprocess.run([PY, '-B', '-c', RUNNER, cid, str(n)] + ([cov] if cov else []), env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 'timeout'
    if p.returncode or not p.stdout.strip(): return 'died ' + p.stderr[-200:]
    return json.loads(p.stdout.strip().splitlines()[-1])


BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '*', ast.Mod: '//'}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}


def sites(path):
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    off = [0]
    for x in lines: off.append(off[-1] + len(x.encode()))
    b = src.encode()
    pos = lambda l, c: off[l - 1] + c
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    out = []

    def add(n, a, z, new, kind): out.append((n.lineno, a, z, new, kind))
    tree = ast.parse(src)
    for n in ast.walk(tree):
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            l, r = span(n.left)[1], span(n.right)[0]
            mid = b[l:r].decode()
            m = re.search(r'//|[-+*/%]', mid)
            if m: add(n, l + len(mid[:m.start()].encode()), l + len(mid[:m.end()].encode()), BIN[type(n.op)], 'binop')
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            l, r = span(n.left)[1], span(n.comparators[0])[0]
            add(n, l, r, f' {CMP[type(n.ops[0])]} ' + ('(' * b[l:r].decode().count('(')), 'cmp')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            a, z = span(n)
            add(n, a, span(n.operand)[0], '' if isinstance(n.op, ast.USub) else '', 'unary')
        elif isinstance(n, ast.BoolOp):
            l, r = span(n.values[0])[1], span(n.values[1])[0]
            mid = b[l:r].decode()
            add(n, l, r, mid.replace('and', '@').replace('or', 'and').replace('@', 'or'), 'bool')
        elif isinstance(n, ast.Constant):
            a, z = span(n)
            if n.value is True or n.value is False: add(n, a, z, str(not n.value), 'const')
            elif isinstance(n.value, int): add(n, a, z, str(n.value + 1), 'const')
            elif isinstance(n.value, float): add(n, a, z, repr(n.value * 2 if n.value else 1.0), 'const')
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and isinstance(n, ast.AugAssign):
            a, z = span(n)
            add(n, a, z, 'pass', 'delstmt')
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            a, z = span(n)
            add(n, a, z, 'pass', 'delstmt')
        elif isinstance(n, ast.Call):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
            if name in ('conj', 'real', 'imag', 'squeeze', 'abs', 'flip', 'copy', 'ascontiguousarray') and len(n.args) == 1:
                a, z = span(n)
                c, d = span(n.args[0])
                add(n, a, z, '(' + b[c:d].decode() + ')', 'dropcall')
            if name in ('sum', 'mean', 'max', 'min', 'fft', 'ifft', 'fftn', 'ifftn', 'fftshift', 'ifftshift', 'real', 'imag') and isinstance(f, ast.Attribute):
                sw = dict(sum='mean', mean='sum', max='min', min='max', fft='ifft', ifft='fft', fftn='ifftn', ifftn='fftn', fftshift='ifftshift', ifftshift='fftshift', real='imag', imag='real')[name]
                z = span(f)[1]
                add(n, z - len(name), z, sw, 'swap')
            if n.keywords and name not in ('save', 'log_event', 'log_cpu_time'):
                for k in n.keywords:
                    if k.arg and len(n.args) + len(n.keywords) > 1:
                        a, z = pos(k.lineno, k.col_offset), span(k.value)[1]
                        rest = b[z:].decode(errors='ignore')
                        m = re.match(r'\s*,\s*', rest)
                        if m: add(n, a, z + len(m.group().encode()), '', 'delkw')
        elif isinstance(n, ast.Attribute) and n.attr in ('real', 'imag', 'dens', 'magn', 'dmft', 'niv_core', 'niv_full', 'niw_core', 'niv_pp', 'k_grid', 'q_grid', 'niv_shell') and isinstance(n.ctx, ast.Load):
            sw = dict(real='imag', imag='real', dens='magn', magn='dens', niv_core='niv_full', niv_full='niv_core', niw_core='niv_core', k_grid='q_grid', q_grid='k_grid', niv_pp='niv_core', niv_shell='niv_core').get(n.attr)
            if sw:
                z = span(n)[1]
                add(n, z - len(n.attr), z, sw, 'attr')
        elif isinstance(n, ast.If) and n.orelse == []:
            a, z = span(n.test)
            add(n, a, z, 'True', 'cond')
            add(n, a, z, 'False', 'cond')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice): pass
    docs = {n.value.lineno for n in ast.walk(tree) if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)}
    return [s for s in out if s[0] not in docs], b


def cover(n):
    os.makedirs(T + '/cov', exist_ok=True)
    with ThreadPoolExecutor(8) as ex:
        for c, r in zip(ORDER, ex.map(lambda c: run_check(c, n, BASE, f'{T}/cov/{c}.json', 1800), ORDER)): print(c, r)


def covered():
    d = collections.defaultdict(set)
    for c in ORDER:
        for f, l in json.load(open(f'{T}/cov/{c}.json')): d[f, l].add(c)
    return d


def all_sites(rx='.'):
    cov = covered()
    out = []
    for f in sorted(os.listdir(BASE + '/src/dga')):
        if f in SKIP or not f.endswith('.py') or not re.search(rx, f): continue
        for i, s in enumerate(sites(BASE + '/src/dga/' + f)[0]):
            if cov.get((f, s[0])): out.append((f, i, s, cov[f, s[0]]))
    return out


def one(job):
    wid, f, i, s, checks, n = job
    w = f'{T}/w{wid}'
    if not os.path.isdir(w): shutil.copytree(BASE, w, ignore=shutil.ignore_patterns('.git'))
    p = f'{w}/src/dga/{f}'
    good = open(BASE + '/src/dga/' + f, 'rb').read()
    _, a, z, new, kind = s
    bad = good[:a] + new.encode() + good[z:]
    try: compile(bad, f, 'exec')
    except SyntaxError: return 'syntax', None
    open(p, 'wb').write(bad)
    try:
        for c in ORDER:
            if c not in checks: continue
            r = run_check(c, n, w, timeout=120 + 20 * n)
            if r: return c, r
        return 'SURVIVED', None
    finally:
        open(p, 'wb').write(good)


def run(seed, count, n, rx='.'):
    import queue
    st = all_sites(rx)
    print(len(st), 'sites')
    sel = random.Random(seed).sample(st, min(count, len(st)))
    ids = queue.Queue()
    for k in range(int(os.environ.get('MUT_W', 7))): ids.put(k)

    def go(x):
        f, i, s, checks = x
        w = ids.get()
        try: r = one((w, f, i, s, checks, n))
        finally: ids.put(w)
        line = open(BASE + '/src/dga/' + f).read().splitlines()[s[0] - 1].strip()
        old = open(BASE + '/src/dga/' + f, 'rb').read()[s[1]:s[2]].decode()
        with open(f'{T}/log{seed}', 'a') as lf:
            lf.write(json.dumps(dict(file=f, line=s[0], kind=s[4], old=old[:60], new=s[3], src=line[:140], by=r[0], what=str(r[1])[:120], site=i)) + '\n')
    with ThreadPoolExecutor(ids.qsize()) as ex: list(ex.map(go, sel))


if __name__ == '__main__':
    if sys.argv[1] == 'cover': cover(int(sys.argv[2]))
    elif sys.argv[1] == 'sites':
        print(collections.Counter(x[0] for x in all_sites()), len(all_sites()))
    else: run(int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), *sys.argv[5:6])
