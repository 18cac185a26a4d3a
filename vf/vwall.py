"""A virtual wall clock: import before the code which reads the time.

While `WALL.loop` is set, datetime.now()/utcnow()/today() and time.time() are
a function of that loop's virtual time.
"""
import datetime as dt_mod
import time as time_mod

_real_time = time_mod.time
_real_time_ns = time_mod.time_ns
_RealDatetime = dt_mod.datetime


class Wall:
    loop = None
    base = 0.0

    def now(self):
        if self.loop is None:
            return _real_time()
        # the resolution of the real clock
        return round(self.base + self.loop.vtime, 6)


WALL = Wall()


class VirtualDatetime(_RealDatetime):
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(WALL.now(), tz)

    @classmethod
    def utcnow(cls):
        return cls.fromtimestamp(
            WALL.now(), dt_mod.timezone.utc,
        ).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


def install():
    dt_mod.datetime = VirtualDatetime
    time_mod.time = WALL.now
    time_mod.time_ns = lambda: int(WALL.now() * 10 ** 9)
