import asyncio

import aiomisc

from vf.core import Scenario
from vf.util import Boom, outcome_of
from vf.vloop import run_virtual, steps

RULE = (
    "retry plans (durations, listed/unlisted errors, timeouts, give up) for "
    "random attempt_timeout/deadline/pause/max_tries, several concurrent "
    "calls per decorated function, callers cancelled at a random virtual "
    "time; outcome, its time and every attempt compared to an exact model"
)
G = 1 / 8


class Listed(Boom):
    pass


class Listed2(Boom):
    pass


class Unlisted(Boom):
    pass


def make_plan(rng, cfg, length):
    plan = []
    for _ in range(length):
        kind = rng.choice(
            ["listed"] * 4 + ["listed2"] * 2 + ["timeout"],
        )
        plan.append((rng.choice([0, 0, 1, 2, 5, 20]) * G, kind))
    # the last one always ends the retries
    last = rng.choice(["ok", "ok", "none", "unlisted", "cancel"])
    if cfg.is_listed(last):
        last = "ok"
    dur = rng.choice([0, 1, 3, 20]) * G
    if cfg.attempt_timeout is not None and dur > cfg.attempt_timeout:
        dur = 0
    plan.append((dur, last))
    return plan


class Config:
    def __init__(self, rng, retry=False):
        self.retry = retry
        self.attempt_timeout = rng.choice(
            [None, None, rng.randint(0, 12) * G + G / 2],
        )
        self.deadline = rng.choice(
            [None, rng.randint(0, 40) * G + G / 4],
        )
        if retry:
            self.attempt_timeout = self.deadline = None
        self.pause = rng.choice([0, 0, 1, 2, 7]) * G
        self.max_tries = rng.choice([None, None, 1, 2, 3, 5])
        self.listed = rng.choice([(Listed, Listed2), (Listed,), ()])
        if retry:
            self.listed = rng.choice([(Listed, Listed2), (Exception,)])
        self.giveup = rng.choice([None, None, "listed2", "never"])
        self.style = rng.choice(["pos", "kw", "mixed"])

    def plan(self):
        return {k: repr(v) if k == "listed" else v
                for k, v in vars(self).items()}

    def is_listed(self, kind):
        if kind == "timeout":
            # the timeouts are always retried (asyncretry: as listed)
            return True
        cls = {"listed": Listed, "listed2": Listed2,
               "unlisted": Unlisted}.get(kind)
        return cls is not None and issubclass(cls, self.listed or ())

    def decorate(self, func):
        giveup = None
        if self.giveup == "listed2":
            def giveup(e):
                return isinstance(e, Listed2)
        elif self.giveup == "never":
            def giveup(e):
                return False
        if self.retry:
            return aiomisc.asyncretry(
                self.max_tries, exceptions=self.listed, pause=self.pause,
                giveup=giveup,
            )(func)
        args, kw = (), {}
        if self.style == "pos":
            args = self.listed
        elif self.style == "kw":
            kw["exceptions"] = self.listed
        else:
            args, kw["exceptions"] = self.listed[:1], self.listed[1:]
        return aiomisc.asyncbackoff(
            self.attempt_timeout, self.deadline, self.pause, *args,
            max_tries=self.max_tries, giveup=giveup, **kw,
        )(func)


def model(cfg, plan):
    """-> (outcome, attempt index or None, end, [(start, end)] attempts)"""
    t = 0.0
    dl = float("inf") if cfg.deadline is None else cfg.deadline
    last = None
    attempts = []
    for i, (dur, kind) in enumerate(plan):
        end = t + dur
        timed_out = (
            cfg.attempt_timeout is not None and dur > cfg.attempt_timeout
        )
        if timed_out:
            end = t + cfg.attempt_timeout
        if end > dl:
            attempts.append((t, dl))
            return ("exc", last, dl, attempts)
        attempts.append((t, end))
        t = end
        if timed_out:
            kind = "attempt-timeout"
        elif kind in ("ok", "none"):
            return (kind, i, t, attempts)
        elif kind == "cancel":
            return ("cancelled", i, t, attempts)
        elif not cfg.is_listed(kind):
            return ("exc", i, t, attempts)
        last = i
        if cfg.max_tries is not None and i + 1 >= cfg.max_tries:
            return ("exc", i, t, attempts)
        if cfg.giveup == "listed2" and kind == "listed2":
            return ("exc", i, t, attempts)
        if t + cfg.pause > dl:
            return ("exc", last, dl, attempts)
        t += cfg.pause
    raise AssertionError("the plan did not end")


class Caller:
    def __init__(self, cfg, plan):
        self.cfg, self.plan = cfg, plan
        self.attempts = []
        self.errors = {}
        self.start = None
        self.end = None

    async def attempt(self, *args, **kwargs):
        loop = asyncio.get_running_loop()
        i = len(self.attempts)
        rec = [loop.time() - self.start, None, args, kwargs]
        self.attempts.append(rec)
        dur, kind = self.plan[i]
        try:
            if dur:
                await asyncio.sleep(dur)
        finally:
            rec[1] = loop.time() - self.start
        if kind == "ok":
            return ("ok", i)
        if kind == "none":
            return None
        if kind == "cancel":
            raise asyncio.CancelledError
        exc = {"listed": Listed, "listed2": Listed2, "unlisted": Unlisted,
               "timeout": lambda _: asyncio.TimeoutError()}[kind](i)
        self.errors[i] = exc
        raise exc


def verify(case, caller, out):
    cfg, plan = caller.cfg, caller.plan
    kind, idx, end, attempts = model(cfg, plan)
    info = dict(cfg=cfg.plan(), plan=plan, got=out,
                want=(kind, idx, end, attempts),
                attempts=[a[:2] for a in caller.attempts], end=caller.end)
    case.check(
        [(a[0], a[1]) for a in caller.attempts] == attempts, "attempts",
        "the attempts differ from the model", **info,
    )
    case.check(caller.end == end, "end-time", "", **info)
    if kind == "ok":
        good = out == ("ok", ("ok", idx))
    elif kind == "none":
        good = out == ("ok", None)
    elif kind == "cancelled":
        good = out[0] == "cancelled"
    elif out[0] != "exc":
        good = False
    elif idx is None or idx not in caller.errors:
        # the deadline during the first attempt, or a timed out attempt
        good = isinstance(out[1], asyncio.TimeoutError)
    else:
        good = out[1] is caller.errors[idx]
    case.check(good, "outcome", "", **info)
    for a in caller.attempts:
        case.check(a[2] == (caller, 1) and a[3] == {"x": 2}, "arguments",
                   repr(a))
    case.event("attempts", len(caller.attempts))
    case.event("outcome_" + kind)


def compare(case, retry, concurrent):
    rng = case.rng
    cfg = Config(rng, retry)
    callers = []
    for _ in range(concurrent):
        length = rng.choice([0, 1, 2, 3, 6])
        callers.append(Caller(cfg, make_plan(rng, cfg, length)))
    case.describe(cfg=cfg.plan(), plans=[c.plan for c in callers])
    case.trace(repr(sorted(cfg.plan().items(), key=str)),
               *[repr(c.plan) for c in callers])

    async def func(caller, one, x=None):
        return await caller.attempt(caller, one, x=x)

    async def main():
        loop = asyncio.get_running_loop()
        wrapped = cfg.decorate(func)

        async def call(c, delay):
            await asyncio.sleep(delay)
            c.start = loop.time()
            try:
                return await wrapped(c, 1, x=2)
            finally:
                c.end = loop.time() - c.start
        tasks = [
            loop.create_task(call(c, n and rng.choice([0, 1, 2]) * G))
            for n, c in enumerate(callers)
        ]
        done, pending = await asyncio.wait(tasks, timeout=10000)
        case.check(not pending, "hang", "", cfg=cfg.plan())
        for c, t in zip(callers, tasks):
            verify(case, c, outcome_of(t))
    run_virtual(main)


def backoff(case):
    compare(case, False, 1)


def backoff_concurrent(case):
    compare(case, False, case.rng.randint(2, 5))


def retry(case):
    compare(case, True, case.rng.randint(1, 3))


def cancelled(case):
    """A cancelled caller stops retrying at once."""
    rng = case.rng
    cfg = Config(rng, rng.random() < 0.3)
    cfg.max_tries = rng.choice([None, 10])
    caller = Caller(cfg, make_plan(rng, cfg, rng.randint(1, 8)))
    kind, idx, end, attempts = model(cfg, caller.plan)
    at = rng.randint(0, 24) * G + G / 8
    k = rng.randint(0, 3)
    case.trace(repr(cfg.plan()), repr(caller.plan), at, k)
    case.describe(cfg=cfg.plan(), plan=caller.plan, cancel_at=at)

    async def func(caller, one, x=None):
        return await caller.attempt(caller, one, x=x)

    async def main():
        loop = asyncio.get_running_loop()
        wrapped = cfg.decorate(func)
        caller.start = loop.time()

        async def call():
            try:
                return await wrapped(caller, 1, x=2)
            finally:
                caller.end = loop.time() - caller.start
        t = loop.create_task(call())
        await asyncio.sleep(at)
        await steps(k)
        early = t.done()
        t.cancel()
        await asyncio.wait([t])
        if early:
            case.trivial()
            return verify(case, caller, outcome_of(t))
        case.check(end > at, "end-time", f"still running at {at}",
                   want=end)
        case.check(t.cancelled(), "cancel-lost", repr(t))
        case.check(caller.end == at, "cancel-delayed", str(caller.end))
        n = len(caller.attempts)
        await asyncio.sleep(100)
        case.check(len(caller.attempts) == n, "attempt-after-cancel", "")
        case.check(all(a[1] is not None for a in caller.attempts),
                   "attempt-not-cancelled", "")
        want = [a for a in attempts if a[0] <= at]
        case.check([a[0] for a in caller.attempts] ==
                   [a[0] for a in want], "attempts",
                   "", got=caller.attempts, want=want)
        case.event("cancelled")
    run_virtual(main)


def timeouts(case):
    rng = case.rng
    value = rng.choice([rng.randint(0, 10) * G + G / 2, 3])
    dur = rng.randint(0, 12) * G
    kind = rng.choice(["ok", "listed", "unlisted", "none", "timeout"])
    case.trace(value, dur, kind)
    caller = Caller(None, [(dur, kind)])

    @aiomisc.timeout(value)
    async def func(*args, **kwargs):
        return await caller.attempt(*args, **kwargs)

    async def main():
        loop = asyncio.get_running_loop()
        caller.start = loop.time()
        t = loop.create_task(func(caller, 1, x=2))
        await asyncio.wait([t])
        end = loop.time() - caller.start
        out = outcome_of(t)
        case.check(caller.attempts[0][2:] == [(caller, 1), {"x": 2}],
                   "arguments", "")
        if dur > value:
            case.check(
                out[0] == "exc" and
                isinstance(out[1], asyncio.TimeoutError) and end == value,
                "timeout", str((out, end, value, dur)),
            )
            case.check(caller.attempts[0][1] == value, "not-cancelled", "")
            case.event("timed_out")
        elif dur < value:
            case.check(end == dur, "end-time", str((end, dur)))
            good = (
                out == ("ok", ("ok", 0)) if kind == "ok" else
                out == ("ok", None) if kind == "none" else
                out[0] == "exc" and out[1] is caller.errors[0]
            )
            case.check(good, "outcome", str(out))
            case.event("in_time")
    run_virtual(main)


QUICK_SCALE = 4
SCENARIOS = [
    Scenario(backoff, 3000),
    Scenario(backoff_concurrent, 1200),
    Scenario(retry, 1500),
    Scenario(cancelled, 1200),
    Scenario(timeouts, 500),
]
