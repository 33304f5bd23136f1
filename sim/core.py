'''The simulator: processes are threads, exactly one of which runs at any time; a seeded scheduler hands the baton over.

Every source of nondeterminism asks World.choose().  The answers are recorded, so (case, choices) replays one execution.
'''
import hashlib
import random
import sys
import threading
import traceback

import numpy as np

TLS = threading.local()


class SimKilled(BaseException):
    '''Raised inside a simulated process that has been killed.'''


class HarnessError(Exception):
    '''The simulator met something it does not model; never a verdict about the code.'''


class Deadlock(Exception):
    pass


def current():
    return getattr(TLS, 'proc', None)


class Chooser:
    '''Random answers under a scheduling policy, or replayed answers; everything is recorded.'''

    def __init__(self, seed=0, replay=None):
        self.rng = random.Random(seed)
        self.replay = list(replay) if replay is not None else None
        self.rec = []

    def _next(self, n, draw):
        if n <= 1:
            return 0
        if self.replay is not None:
            i = len(self.rec)
            v = self.replay[i] if i < len(self.replay) else 0
            v = v if v < n else 0
        else:
            v = draw()
        self.rec.append(v)
        return v

    def choose(self, n, p_default=None):
        def draw():
            if p_default is not None and self.rng.random() < p_default:
                return 0
            return self.rng.randrange(n)

        return self._next(n, draw)


POLICIES = ('uniform', 'sticky', 'pct', 'starve', 'rr', 'seq')


class Proc:
    def __init__(self, world, pid, fn, job, rank):
        self.world, self.pid, self.fn, self.job, self.rank = world, pid, fn, job, rank
        self.sem = threading.Semaphore(0)
        self.waiting = None  # callable -> bool when blocked
        self.wait_label = None
        self.done = False
        self.dying = False
        self.dead = False  # killed by a fault or by the launcher
        self.aborted = False  # its job called MPI_Abort
        self.kill = False
        self.exc = None
        self.exc_tb = None
        self.result = None
        self.argv = list(sys.argv)
        self.rs = None
        self.io_depth = 0
        self.h5_depth = 0
        self.hold = False
        self.steps = 0
        self.locals = {}
        self.out = []
        self.thread = threading.Thread(target=self._main, daemon=True)

    def _main(self):
        TLS.proc = self
        self.sem.acquire()
        w = self.world
        w._switch_in(self)
        try:
            if not self.kill:
                self.result = self.fn()
        except SimKilled:
            pass
        except SystemExit as e:
            self.exc = e if e.code not in (None, 0) else None
            self.result = ('SystemExit', e.code)
        except BaseException as e:  # noqa
            if not self.kill:
                self.exc = e
                self.exc_tb = traceback.format_exc()
        finally:
            self.done = True
            w._proc_finished(self)


class World:
    def __init__(self, seed=0, choices=None, policy=None, max_steps=400000, clock=None, stdout_capture=True):
        self.ch = Chooser(seed, choices)
        self.procs = []
        self.max_steps = max_steps
        self.steps = 0
        self.switches = 0
        self.h = hashlib.sha1()
        self.ctl = threading.Semaphore(0)
        self.running = None
        self.verdicts = []  # (kind, message) found by the simulator itself
        self.aborting = False
        self.aborts = {}  # job -> steps its other ranks may still take after MPI_Abort
        self.orphaned = None
        self.events = []
        self.on_step = []  # callables(world, proc, label)
        self.fault_counts = {}
        self.fs = None
        self.clock = clock
        self.oplog = None
        self.policy = policy
        self._prio = {}
        self.outcome = None
        self.grace = None
        self.call_tag = None
        self.trace = []
        self.quiet = 0
        if policy is None:
            self.policy = self.ch.rng.choice(POLICIES[:5])
        self.sticky_p = self.ch.rng.choice([0.5, 0.8, 0.95])
        self._rr = 0

    # -- processes -------------------------------------------------------------------------------------------------
    def spawn(self, fn, job=0, rank=0, argv=None, np_seed=None):
        p = Proc(self, len(self.procs), fn, job, rank)
        if argv is not None:
            p.argv = list(argv)
        seed = np_seed if np_seed is not None else (12345 + 7919 * p.pid)
        p.rs = np.random.RandomState(seed).get_state()
        self.procs.append(p)
        return p

    def _switch_in(self, p):
        self.running = p
        sys.argv = p.argv
        np.random.set_state(p.rs)

    def _switch_out(self, p):
        p.rs = np.random.get_state()

    def runnable(self):
        out = []
        for p in self.procs:
            if p.done or p.dead:
                continue
            if p.waiting is None or p.waiting():
                out.append(p)
        return out

    def _pick(self, cur):
        ready = self.runnable()
        if not ready:
            return None
        if cur is not None and cur in ready:
            ready.remove(cur)
            ready.insert(0, cur)
        n = len(ready)
        if n == 1:
            return ready[0]
        ch = self.ch

        def draw():
            rng, pol = ch.rng, self.policy
            if pol == 'seq':
                return 0
            if pol == 'uniform':
                return rng.randrange(n)
            if pol == 'sticky':
                if ready[0] is cur and rng.random() < self.sticky_p:
                    return 0
                return rng.randrange(n)
            if pol == 'rr':
                self._rr += 1
                return self._rr % n
            if pol == 'starve':
                vic = self._prio.setdefault('victim', rng.randrange(len(self.procs)))
                cand = [i for i, q in enumerate(ready) if q.pid != vic]
                return rng.choice(cand) if cand else 0
            # pct: random priorities with a few change points
            for q in self.procs:
                self._prio.setdefault(q.pid, rng.random())
            if rng.random() < 0.02:
                self._prio[ready[0].pid] = -rng.random()
            return max(range(n), key=lambda i: self._prio[ready[i].pid])

        return ready[ch._next(n, draw)]

    def note(self, p, label):
        self.h.update(f'{p.pid}:{label};'.encode())
        if len(self.trace) < 4000:
            self.trace.append(f'{p.job}.{p.rank} {label}')

    # -- called by processes ---------------------------------------------------------------------------------------
    def step(self, label, wait=None):
        '''A scheduling point; with wait, block until wait() is true.'''
        p = current()
        if p is None or p.world is not self:
            return
        if p.kill:
            raise SimKilled()
        if p.dead:
            raise SimKilled()
        self.steps += 1
        p.steps += 1
        self.note(p, label)
        if p.dying and not p.hold:
            p.dead, p.dying = True, False
        for f in self.on_step:
            f(self, p, label)
        if p.job in self.aborts:
            self.aborts[p.job] -= 1
            if self.aborts[p.job] < 0: p.dead = p.aborted = True
        if p.dead and p.hold and (self.grace is None or self.grace > 0):
            p.dead, p.dying = False, True  # the others still need the HDF5 library lock: it dies at its next step outside
        if p.dead:
            # frozen where it stands (no unwinding, no flushing) until the controller takes over
            p.kill = True
            nxt = self._pick(None)
            if nxt is None: self._stuck()
            if nxt is None or (self.grace is not None and self.grace <= 0):
                self._yield_to_controller(p)
            else:
                self._switch_out(p)
                nxt.sem.release()
                p.sem.acquire()
                self._switch_in(p)
            raise SimKilled()
        if p.kill:
            self._yield_to_controller(p)
            raise SimKilled()
        if self.grace is not None:
            self.grace -= 1
            if self.grace <= 0:
                self._yield_to_controller(p)
                raise SimKilled()
        if self.steps > self.max_steps:
            self.verdicts.append(('no-progress', f'step budget {self.max_steps} exhausted at {label}'))
            self._yield_to_controller(p)
            raise SimKilled()
        if p.hold and wait is None:
            return
        p.waiting, p.wait_label = wait, label
        nxt = self._pick(p)
        if nxt is None:
            self._stuck()
            self._yield_to_controller(p)
            raise SimKilled()
        if nxt is not p:
            self.switches += 1
            self._switch_out(p)
            nxt.sem.release()
            p.sem.acquire()
            self._switch_in(p)
        p.waiting = None
        if p.kill or p.dead:
            raise SimKilled()

    def _stuck(self):
        if self.grace is not None or any(q.dead and not q.aborted for q in self.procs):
            return  # remaining ranks wait for a rank that died: the launcher ends the job
        left = [q for q in self.procs if not q.done and not q.dead and q.job not in self.aborts]
        if not left:
            return
        bad = [q for q in self.procs if q.exc is not None and not q.aborted]
        if bad:
            self.orphaned = (f'rank {bad[0].rank} ended with {type(bad[0].exc).__name__}: {bad[0].exc!s:.200}; '
                             f'waiting for ever: ' + ', '.join(f'{q.job}.{q.rank} in {q.wait_label}' for q in left))
            return
        who = {f'{q.job}.{q.rank}': q.wait_label for q in self.procs if not q.done}
        fin = [f'{q.job}.{q.rank}' for q in self.procs if q.done]
        self.verdicts.append(('deadlock', f'no process can proceed; waiting={who} finished={fin}'))

    def _yield_to_controller(self, p):
        '''Give the baton to the controller, which then unwinds every process.'''
        self.aborting = True
        p.kill = True
        self._switch_out(p)
        self.ctl.release()
        p.sem.acquire()
        self._switch_in(p)

    def abort_job(self, p, exc, tb):
        '''MPI_Abort: this process stops here, the others of its job are ended by the launcher a little later.'''
        p.exc, p.exc_tb, p.aborted, p.dead = exc, tb, True, True
        self.aborts.setdefault(p.job, self.ch.choose(12))
        p.kill = True
        nxt = self._pick(None)
        if nxt is None:
            self._stuck()
            self._yield_to_controller(p)
        else:
            self._switch_out(p)
            nxt.sem.release()
            p.sem.acquire()
            self._switch_in(p)
        raise SimKilled()

    def end_world(self):
        '''Called by a process: kill everything now (crash of the whole machine/job).'''
        p = current()
        self._yield_to_controller(p)
        raise SimKilled()

    def _proc_finished(self, p):
        if p.dying: p.dead = True
        self._switch_out(p)
        if self.aborting:
            self.ctl.release()
            return
        nxt = self._pick(None)
        if nxt is None:
            if not all(q.done for q in self.procs):
                self._stuck()
            self.aborting = True
            self.ctl.release()
            return
        nxt.sem.release()

    def fault(self, kind):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + 1

    # -- controller ------------------------------------------------------------------------------------------------
    def run(self, on_freeze=None):
        argv, rs = sys.argv, np.random.get_state()
        for p in self.procs:
            p.thread.start()
        first = self._pick(None)
        first.sem.release()
        self.ctl.acquire()
        if on_freeze is not None:
            on_freeze(self)
        for p in sorted(self.procs, key=lambda q: not q.hold):  # a holder of the HDF5 library lock first
            if not p.done:
                p.kill = True
                p.sem.release()
                self.ctl.acquire()
        for p in self.procs:
            p.thread.join()
        sys.argv = argv
        np.random.set_state(rs)
        return self

    def digest(self):
        return self.h.hexdigest()[:16]
