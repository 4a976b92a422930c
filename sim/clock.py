"""
Virtual clock.

``time.time``, ``time.monotonic``, ``time.sleep`` and ``datetime.datetime.now``
are replaced before spey (or anything it imports) binds them.  Outside a
simulation the real clock is used; inside, time only moves when the simulator
moves it.
"""
import datetime as _dt
import time as _time

_real_time = _time.time
_real_monotonic = _time.monotonic
_real_sleep = _time.sleep
_real_time_ns = _time.time_ns
_RealDatetime = _dt.datetime


class Clock:
    def __init__(self):
        self.virtual = False
        self.wall = 0.0        # seconds since the epoch (can jump)
        self.mono = 0.0        # monotonic seconds
        self.on_sleep = None   # hook of the scheduler
        self.slept = 0.0

    def start(self, wall=1.7e9):
        self.virtual, self.wall, self.mono, self.slept = True, float(wall), 0.0, 0.0

    def stop(self):
        self.virtual = False

    def advance(self, dt):
        self.wall += dt
        self.mono += dt


CLOCK = Clock()


def time():
    return CLOCK.wall if CLOCK.virtual else _real_time()


def time_ns():
    return int(CLOCK.wall * 1e9) if CLOCK.virtual else _real_time_ns()


def monotonic():
    return CLOCK.mono if CLOCK.virtual else _real_monotonic()


def sleep(dt):
    if not CLOCK.virtual:
        return _real_sleep(dt)
    CLOCK.slept += dt
    if CLOCK.on_sleep is not None and CLOCK.on_sleep(dt):
        return None
    CLOCK.advance(dt)
    return None


class _Meta(type):
    # the replacement must be indistinguishable in isinstance checks
    def __instancecheck__(cls, obj):
        return isinstance(obj, _RealDatetime)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _RealDatetime)


class datetime(_RealDatetime, metaclass=_Meta):
    @classmethod
    def now(cls, tz=None):
        if not CLOCK.virtual:
            return _RealDatetime.now(tz)
        return _RealDatetime.fromtimestamp(CLOCK.wall, tz)

    @classmethod
    def utcnow(cls):
        if not CLOCK.virtual:
            return _RealDatetime.utcnow()
        return _RealDatetime.fromtimestamp(CLOCK.wall, _dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


def install():
    _time.time = time
    _time.time_ns = time_ns
    _time.monotonic = monotonic
    _time.sleep = sleep
    _dt.datetime = datetime
    import threading
    threading._time = monotonic
