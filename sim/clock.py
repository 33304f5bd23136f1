'''Simulated wall clock: advances with the schedule, may jump in either direction.'''
import datetime as _dt
import types
import time as _time

from . import core

_r = {}


class Clock:
    def __init__(self, start=1.7e9, per_step=0.01, jumps=()):
        self.t = start
        self.mono = 0.0
        self.per_step = per_step
        self.jumps = {int(j['step']): float(j['delta']) for j in jumps}
        self.jumped = 0
        self.elapsed = 0.0

    def tick(self, world, p, label):
        self.t += self.per_step
        self.mono += self.per_step
        self.elapsed += self.per_step
        d = self.jumps.get(world.steps)
        if d is not None:
            self.t += d
            self.jumped += 1
            world.fault('clock-jump-fwd' if d > 0 else 'clock-jump-back')


def _clock():
    p = core.current()
    return p.world.clock if p is not None else None


def _time_f():
    c = _clock()
    return _r['time']() if c is None else c.t


def _mono_f():
    c = _clock()
    return _r['monotonic']() if c is None else c.mono


def _perf_f():
    c = _clock()
    return _r['perf_counter']() if c is None else c.mono


def _sleep(s):
    p = core.current()
    if p is None or p.world.clock is None:
        return _r['sleep'](s)
    p.world.clock.t += s
    p.world.clock.mono += s
    p.world.clock.elapsed += s
    p.world.step('sleep')


class SimDateTime(_dt.datetime):
    @classmethod
    def now(cls, tz=None):
        c = _clock()
        if c is None: return _r['now'](tz)
        return _r['fromts'](c.t, tz or None) if tz else _r['utcfromts'](c.t)

    @classmethod
    def today(cls): return cls.now()

    @classmethod
    def utcnow(cls): return cls.now()


def install():
    if _r: return
    _r.update(time=_time.time, monotonic=_time.monotonic, perf_counter=_time.perf_counter, sleep=_time.sleep,
              now=_dt.datetime.now, fromts=_dt.datetime.fromtimestamp,
              utcfromts=lambda t: _dt.datetime(1970, 1, 1) + _dt.timedelta(seconds=t))
    _time.time = _time_f
    _time.monotonic = _mono_f
    _time.perf_counter = _perf_f
    _time.sleep = _sleep
    _time.process_time = _perf_f


def patch_modules(mods):
    '''Give the modules under test the simulated datetime (replacing it globally would break C extensions).'''
    proxy = types.ModuleType('datetime')
    proxy.__dict__.update({k: v for k, v in _dt.__dict__.items() if not k.startswith('__')})
    proxy.datetime = SimDateTime
    for m in mods:
        for k, v in list(vars(m).items()):
            if v is _dt: setattr(m, k, proxy)
            elif v is _dt.datetime: setattr(m, k, SimDateTime)


def real_time():
    return _r['time']() if _r else _time.time()
