'''Seeded search over simulated runs: generate cases, run them in forked children, minimise, write the replay file and
the evidence.  One case + one choice list is one exactly repeatable execution.'''
import hashlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import struct
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, 'known_findings.jsonl')


class Res:
    '''What one simulated run reports.'''

    def __init__(self):
        self.violations = []  # (signature, message)
        self.digest = ''
        self.steps = self.switches = 0
        self.faults = {}
        self.choices = []
        self.sim_time = 0.0
        self.nontrivial = True
        self.states = []
        self.trace = []
        self.note = ''
        self.worlds = 0
        self.info = {}

    def bad(self, sig, msg):
        self.violations.append((sig, str(msg)[:1500]))

    def add_world(self, w, keep_trace=True):
        self.worlds += 1
        self.digest = hashlib.sha1((self.digest + w.digest()).encode()).hexdigest()[:16]
        self.steps += w.steps
        self.switches += w.switches
        for k, v in w.fault_counts.items(): self.faults[k] = self.faults.get(k, 0) + v
        if w.clock is not None: self.sim_time += w.clock.elapsed
        if keep_trace: self.trace = w.trace[-60:]
        for k, m in w.verdicts: self.violations.append((k, m))


class Check:
    id = ''
    technique = 'deterministic simulation with fault injection'
    batch = 1
    quick_s = 20.0
    thorough_s = 300.0
    max_quick = 100000
    case_timeout = 45.0
    rule = ''
    assumptions = []
    real_components = ''
    stub_components = ''
    parallel = 8

    def gen(self, rng, i, tier): raise NotImplementedError
    def run(self, case, choices, root): raise NotImplementedError
    def shrink(self, case): return []

    def states(self, case, res): return []


def case_for(check, seed, i, tier):
    h = hashlib.sha256(f'{check.id}/{seed}/{i}'.encode()).digest()
    rng = random.Random(int.from_bytes(h[:8], 'big'))
    case = check.gen(rng, i, tier)
    case.setdefault('sched_seed', rng.randrange(1 << 30))
    return case


def _run_case(check, case, choices):
    from . import env
    root = env.scratch(f'dgasim-{check.id}-')
    try:
        return check.run(json.loads(json.dumps(case)), choices, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _child(check, jobs, wfd, quiet=True):
    '''jobs: list of (index, case, choices)'''
    if quiet:
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        os.dup2(dn, 2)

    def send(obj):
        b = pickle.dumps(obj)
        b = struct.pack('<I', len(b)) + b
        while b:
            n = os.write(wfd, b)
            b = b[n:]
    for idx, case, choices in jobs:
        send(('start', idx))
        try:
            r = _run_case(check, case, choices)
            r.choices = list(r.choices)
            send(('done', idx, r))
        except BaseException:  # noqa
            send(('error', idx, traceback.format_exc()))
    os._exit(0)


class _Slot:
    def __init__(self, pid, fd, jobs, timeout):
        self.pid, self.fd, self.jobs, self.buf = pid, fd, jobs, b''
        self.cur = None
        self.t0 = time.monotonic()
        self.timeout = timeout


class Pool:
    def __init__(self, check, n):
        self.check, self.n, self.slots = check, n, []

    def launch(self, jobs, timeout):
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                _child(self.check, jobs, w)
            finally:
                os._exit(3)
        os.close(w)
        self.slots.append(_Slot(pid, r, jobs, timeout))

    def poll(self, wait=0.2):
        '''-> events: ('done', idx, res) / ('error', idx, tb) / ('hang', idx) / ('died', idx)'''
        ev = []
        fds = [s.fd for s in self.slots]
        if not fds: return ev
        rd, _, _ = select.select(fds, [], [], wait)
        for s in list(self.slots):
            if s.fd in rd:
                b = os.read(s.fd, 1 << 20)
                if not b:
                    os.close(s.fd)
                    os.waitpid(s.pid, 0)
                    self.slots.remove(s)
                    if s.cur is not None: ev.append(('died', s.cur))
                    continue
                s.buf += b
                while len(s.buf) >= 4:
                    ln = struct.unpack('<I', s.buf[:4])[0]
                    if len(s.buf) < 4 + ln: break
                    m = pickle.loads(s.buf[4:4 + ln])
                    s.buf = s.buf[4 + ln:]
                    if m[0] == 'start':
                        s.cur = m[1]
                        s.t0 = time.monotonic()
                    else:
                        s.cur = None
                        s.t0 = time.monotonic()
                        ev.append(m)
            if s in self.slots and time.monotonic() - s.t0 > s.timeout:
                self.kill(s)
                ev.append(('hang', s.cur if s.cur is not None else s.jobs[0][0]))
        return ev

    def kill(self, s):
        try: os.kill(s.pid, signal.SIGKILL)
        except OSError: pass
        os.waitpid(s.pid, 0)
        os.close(s.fd)
        self.slots.remove(s)

    def stop(self):
        for s in list(self.slots): self.kill(s)


def run_one(check, case, choices, timeout=None):
    '''Run one case in a fresh child.'''
    p = Pool(check, 1)
    p.launch([(0, case, choices)], timeout or check.case_timeout)
    while True:
        for e in p.poll():
            p.stop()
            if e[0] == 'done': return e[2]
            r = Res()
            if e[0] == 'hang': r.bad('hang', f'the run did not finish within {timeout or check.case_timeout} s')
            elif e[0] == 'died': r.bad('died', 'the process running the simulation died')
            else: r.note = 'ERROR ' + e[2]
            return r
        if not p.slots:
            r = Res()
            r.note = 'ERROR no answer'
            return r


def run_many(check, cands, timeout):
    '''Run candidates in parallel; results in order.'''
    p = Pool(check, check.parallel)
    out = [None] * len(cands)
    todo = list(enumerate(cands))
    while todo or p.slots:
        while todo and len(p.slots) < p.n:
            i, (c, ch) = todo.pop(0)
            p.launch([(i, c, ch)], timeout)
        for e in p.poll():
            r = e[2] if e[0] == 'done' else Res()
            if e[0] == 'hang': r.bad('hang', 'did not finish')
            out[e[1]] = r
    return [o if o is not None else Res() for o in out]


def sigs(r): return {s for s, _ in r.violations}


def minimise(check, case, choices, sig, budget):
    '''Greedy: smaller case, then fewer non-default choices.'''
    t_end = time.monotonic() + budget
    best_case, best_ch = case, list(choices)
    n = 0

    def good(r): return sig in sigs(r)
    progress = True
    # 1. the default schedule, if it fails as well
    r = run_one(check, best_case, [])
    n += 1
    if good(r): best_ch = []
    while progress and time.monotonic() < t_end:
        progress = False
        cands = list(check.shrink(json.loads(json.dumps(best_case))))[:24]
        jobs = [(c, best_ch) for c in cands]
        if best_ch: jobs += [(c, []) for c in cands]
        for i in range(0, len(jobs), check.parallel):
            if time.monotonic() > t_end: break
            chunk = jobs[i:i + check.parallel]
            rs = run_many(check, chunk, check.case_timeout)
            n += len(chunk)
            for (c, chs), r in zip(chunk, rs):
                if good(r):
                    best_case, best_ch = c, list(chs)
                    progress = True
                    break
            if progress: break
    # 2. fewer deviations from the default schedule
    while best_ch and best_ch[-1] == 0: best_ch.pop()
    size = max(1, len(best_ch) // 2)
    while best_ch and time.monotonic() < t_end:
        cands = []
        for s in range(0, len(best_ch), size):
            if any(best_ch[s:s + size]):
                cands.append(best_ch[:s] + [0] * len(best_ch[s:s + size]) + best_ch[s + size:])
        hit = None
        for i in range(0, len(cands), check.parallel):
            if time.monotonic() > t_end: break
            chunk = [(best_case, c) for c in cands[i:i + check.parallel]]
            rs = run_many(check, chunk, check.case_timeout)
            n += len(chunk)
            for (_, c), r in zip(chunk, rs):
                if good(r):
                    hit = c
                    break
            if hit is not None: break
        if hit is not None:
            best_ch = hit
            while best_ch and best_ch[-1] == 0: best_ch.pop()
            continue
        if size == 1: break
        size = max(1, size // 2)
    return best_case, best_ch, n


def load_known(pid):
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for ln in f:
                ln = ln.strip()
                if not ln or ln.startswith('#') or ln.startswith('fixed:'): continue
                d = json.loads(ln)
                if d.get('property') == pid: out.append(d)
    return out


def replay(check, path):
    with open(path) as f: d = json.load(f)
    r = run_one(check, d['case'], d['choices'], max(120, check.case_timeout))
    if r.note.startswith('ERROR'):
        print(r.note)
        return 2
    print(f'replay digest={r.digest} recorded={d.get("digest")} steps={r.steps} switches={r.switches}')
    for s, m in r.violations: print(f'  [{s}] {m}')
    for ln in r.trace[-30:]: print('   ', ln)
    if d['signature'] in sigs(r):
        print(f'VIOLATION property={check.id} replay={path}')
        return 1
    return 0


def main(check):
    t0 = time.monotonic()
    argv = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    if '--tier' in argv: tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from . import env
    env.setup()
    if '--replay' in argv:
        return replay(check, argv[argv.index('--replay') + 1])
    budget = check.quick_s if tier == 'quick' else check.thorough_s
    if '--budget' in argv: budget = float(argv[argv.index('--budget') + 1])
    if '--one' in argv:
        i = int(argv[argv.index('--one') + 1])
        c = case_for(check, seed, i, tier)
        print(json.dumps(c))
        r = _run_case(check, c, None)
        print('digest', r.digest, 'steps', r.steps, 'switches', r.switches, r.faults, r.info, r.note)
        for s, m in r.violations: print(s, m)
        return 0
    known = load_known(check.id)
    known_sigs = {d['signature'] for d in known}
    known_seen = {}
    pool = Pool(check, check.parallel)
    nxt = 0
    done = 0
    errors, found = [], []
    faults, digests, states = {}, set(), set()
    steps = switches = worlds = 0
    sim_time = 0.0
    samples = []
    nontrivial = 0
    infos = {}
    cases = {}
    deadline = t0 + budget
    limit = check.max_quick if tier == 'quick' else 10 ** 9
    first_hit = None
    while True:
        now = time.monotonic()
        stop = now > deadline or nxt >= limit or first_hit is not None
        while not stop and len(pool.slots) < pool.n:
            jobs = []
            for _ in range(check.batch):
                if nxt >= limit: break
                c = case_for(check, seed, nxt, tier)
                cases[nxt] = c
                jobs.append((nxt, c, None))
                nxt += 1
            if not jobs: break
            pool.launch(jobs, check.case_timeout)
        if not pool.slots: break
        if stop and now > deadline + check.case_timeout + 5:
            pool.stop()
            break
        if first_hit is not None and now > first_hit + 8: pool.stop()
        for e in pool.poll():
            idx = e[1]
            case = cases.pop(idx, None)
            if e[0] == 'done':
                r = e[2]
                done += 1
                steps += r.steps
                switches += r.switches
                worlds += max(1, r.worlds)
                sim_time += r.sim_time
                for k, v in r.faults.items(): faults[k] = faults.get(k, 0) + v
                for k, v in r.info.items():
                    if isinstance(v, (int, float)): infos[k] = infos.get(k, 0) + v
                if r.nontrivial:
                    nontrivial += 1
                    digests.add((json.dumps({k: v for k, v in case.items() if k != 'sched_seed'}, sort_keys=True), r.digest))
                for s in r.states: states.add(s)
                if len(samples) < 4 and r.nontrivial:
                    samples.append({'index': idx, 'case': case, 'digest': r.digest, 'steps': r.steps,
                                    'switches': r.switches, 'faults': r.faults, 'trace_tail': r.trace[-12:]})
                new = []
                for s, m in r.violations:
                    if s in known_sigs: known_seen[s] = m
                    else: new.append((s, m))
                if new:
                    found.append((idx, case, r, new))
                    first_hit = first_hit or time.monotonic()
            elif e[0] == 'error':
                errors.append((idx, e[2]))
            else:
                pool.stop()
                rr = run_one(check, case, None, check.case_timeout * 1.5)
                if rr.violations:
                    found.append((idx, case, rr, rr.violations))
                    first_hit = first_hit or time.monotonic()
                else:
                    done += 1
    pool.stop()
    wall_search = time.monotonic() - t0
    code = 0
    viol = 0
    if found:
        found.sort(key=lambda x: x[0])
        idx, case, r, new = found[0]
        sig, msg = new[0]
        viol = len(found)
        print(f'[{check.id}] case {idx}: {sig}: {msg}')
        mb = 25 if tier == 'quick' else 120
        mc, mch, n = (case, r.choices, 0) if sig in ('hang', 'died') else minimise(check, case, r.choices, sig, mb)
        r1 = run_one(check, mc, mch)
        r2 = run_one(check, mc, mch)
        exact = r1.digest == r2.digest and sigs(r1) == sigs(r2) and sig in sigs(r1)
        if sig not in sigs(r1):
            mc, mch = case, r.choices
            r1 = run_one(check, mc, mch)
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        h = hashlib.sha1(json.dumps([mc, mch]).encode()).hexdigest()[:10]
        path = os.path.join(HERE, 'replays', f'{check.id}-{h}.json')
        with open(path, 'w') as f:
            json.dump({'property': check.id, 'signature': sig, 'message': msg, 'seed': seed, 'index': idx, 'case': mc,
                       'choices': mch, 'digest': r1.digest, 'replays_exactly': exact, 'minimiser_runs': n,
                       'all': [m for m in r1.violations][:10], 'trace': r1.trace}, f, indent=1)
        print(f'minimised with {n} runs: {len([c for c in mch if c])} non-default scheduling choices, case '
              f'{json.dumps(mc)[:600]}')
        for s, m in r1.violations[:6]: print(f'  [{s}] {m}')
        print(f'VIOLATION property={check.id} replay={path}')
        code = 1
    for d in known:
        if d['signature'] in known_seen or d.get('always_print', True):
            print(f'KNOWN-FINDING: property={check.id} {d["what"]}')
    if errors and code == 0:
        print('HARNESS-ERROR in case', errors[0][0])
        print(errors[0][1])
        code = 2
    if done == 0 and code == 0:
        print('HARNESS-ERROR no run finished')
        code = 2
    wall = time.monotonic() - t0
    per_h = int(done / max(wall_search, 1e-9) * 3600)
    ev = {'property': check.id, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {
              'evaluations': done, 'distinct_nontrivial': len(digests),
              'rule': check.rule + ' Distinct = distinct pair of (case, hash of the event sequence).',
              'samples': samples or [{'none': True}],
              'simulated_runs': worlds, 'seeds_per_hour': per_h, 'simulated_seconds': round(sim_time, 2),
              'scheduling_points': steps, 'context_switches': switches, 'faults_injected': faults,
              'distinct_states': len(states), 'counters': infos,
              'real_components': check.real_components, 'stub_components': check.stub_components,
              'harness_errors': len(errors), 'known_findings_seen': sorted(known_seen)},
          'assumptions': list(check.assumptions), 'wall_s': round(wall, 2), 'violations': viol}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{check.id}.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    print(f'[{check.id}] {tier}: {done} cases, {worlds} simulated runs, {len(digests)} distinct non-trivial, {switches} context '
          f'switches, faults {faults}, {per_h}/h, {wall:.1f} s')
    return code
