import asyncio
from collections import deque

import aiomisc
from aiomisc.circuit_breaker import (
    CircuitBreaker, CircuitBreakerStates, CircuitBroken,
)

from vf.core import Scenario
from vf.util import Boom, Token
from vf.vloop import run_virtual

RULE = (
    "sequences of sync/async (overlapping) calls through a circuit breaker "
    "in virtual time with phases of failures, successes, silence and "
    "irrelevant errors; the state before every call, admission and outcome "
    "are compared to a model of the documented state machine; distinct by "
    "the sequence of (state, admitted, outcome)"
)
PASSING = CircuitBreakerStates.PASSING
BROKEN = CircuitBreakerStates.BROKEN
RECOVERING = CircuitBreakerStates.RECOVERING


class Listed(Boom):
    pass


class Ignored(Boom):
    pass


class Model:
    """The state machine of the documentation: ten buckets per window."""

    def __init__(self, ratio, rt, broken, recovery, passing):
        self.ratio, self.rt = ratio, rt
        self.broken = broken or rt
        self.recovery = recovery or rt
        self.passing = passing or rt
        self.state = PASSING
        self.stuck = 0
        self.recover_at = 0
        self.buckets = deque(maxlen=10)
        self.opened = None

    def enter(self, now):
        ts = now * 10
        b = int(ts - ts % self.rt)
        if not self.buckets or self.buckets[-1][0] != b:
            self.buckets.append((b, {"fail": 0, "total": 0}))
        counter = self.buckets[-1][1]
        if now < self.stuck:
            return counter
        if self.state is BROKEN:
            self.state, self.recover_at = RECOVERING, now
            return counter
        if self.state is PASSING and len(self.buckets) < 10:
            return counter
        live = [c for t, c in self.buckets if t >= b - self.rt * 10]
        bad = sum(
            1 for c in live
            if c["total"] and c["fail"] / c["total"] >= self.ratio
        )
        share = bad / len(live)
        if self.state is PASSING:
            if share >= 1:
                self.open(now)
        elif share >= 0.5 * self.ratio:
            self.open(now)
        elif now - self.recover_at >= self.recovery:
            self.state = PASSING
            self.stuck = now + self.passing
        return counter

    def open(self, now):
        self.state = BROKEN
        self.stuck = now + self.broken
        self.opened = now
        self.buckets.clear()


class Monitor:
    def __init__(self, case, cutout=False):
        rng = self.rng = case.rng
        self.case = case
        self.ratio = rng.choice([0.1, 0.25, 0.5, 0.75, 1.0])
        self.rt = rng.choice([1, 2, 4, 10])
        times = [
            rng.choice([None, None, 1, 3, 8, 0.5]) for _ in range(3)
        ]
        self.inspect = rng.choice([None, None, "odd", "raises"])
        kw = dict(
            broken_time=times[0], recovery_time=times[1],
            passing_time=times[2],
        )
        if self.inspect == "odd":
            kw["exception_inspector"] = lambda e: e.token % 2
        elif self.inspect == "raises":
            def insp(e):
                raise ValueError
            kw["exception_inspector"] = insp
        self.listed = rng.choice([(Listed,), (Listed, KeyError)])
        self.model = Model(self.ratio, self.rt, *times)
        self.cutout = cutout
        if cutout:
            self.wrap = aiomisc.cutout(
                self.ratio, self.rt, *self.listed, **kw,
            )

            @self.wrap
            def sync(f):
                return f()

            @self.wrap
            async def asyn(f):
                return await f()
            # two functions of a decorator share the breaker: one is used
            self.call_sync = sync
            self.call_async = asyn
            self.cb = None
        else:
            self.cb = CircuitBreaker(
                self.ratio, self.rt, exceptions=self.listed, **kw,
            )

            def sync(f):
                return self.cb.call(lambda a, b: f(), 1, b=2)

            async def asyn(f):
                async def g(a, b):
                    return await f()
                return await self.cb.call_async(g, 1, b=2)
            self.call_sync, self.call_async = sync, asyn
        self.last = None
        self.n = 0
        self.states = set()
        case.trace(self.ratio, self.rt, *times, self.inspect)
        case.describe(ratio=self.ratio, response_time=self.rt, times=times,
                      inspector=self.inspect)

    def now(self):
        return asyncio.get_running_loop().time()

    async def one(self, kind, dur=0):
        """One call: kind is what the function does."""
        case, model = self.case, self.model
        self.n += 1
        n = self.n
        token = Token(n)
        ran = []
        now = self.now()
        before = model.state
        counter = model.enter(now)
        state, recover_at = model.state, model.recover_at
        case.check(
            (before, state) in {
                (PASSING, PASSING), (PASSING, BROKEN), (BROKEN, BROKEN),
                (BROKEN, RECOVERING), (RECOVERING, RECOVERING),
                (RECOVERING, BROKEN), (RECOVERING, PASSING),
            }, "model-transition", f"{before} {state}",
        )
        exc = {
            "listed": Listed, "ignored": Ignored,
        }.get(kind)
        exc = None if exc is None else exc(n)

        def work():
            ran.append(n)
            if exc is not None:
                raise exc
            return token

        async def awork():
            ran.append(n)
            if dur:
                await asyncio.sleep(dur)
            if exc is not None:
                raise exc
            return token
        out = None
        try:
            if dur or self.rng.random() < 0.5:
                res = await self.call_async(awork)
            else:
                res = self.call_sync(work)
            out = ("ok", res)
        except CircuitBroken as e:
            out = ("broken", e)
        except (Listed, Ignored) as e:
            out = ("exc", e)
        except asyncio.CancelledError:
            if ran:
                counter["total"] += 1
            raise
        info = dict(now=now, state=state.name, kind=kind, n=n, out=out,
                    recover_at=recover_at, **case.sample)
        if self.cb is not None and not dur:
            case.check(self.cb.state is state, "state",
                       f"{self.cb.state!r} instead of {state!r}", **info)
        if state is BROKEN:
            case.check(not ran, "called-when-broken", "", **info)
        if state is PASSING:
            case.check(ran == [n], "rejected-when-passing", "", **info)
        if state is RECOVERING:
            elapsed = now - recover_at
            if elapsed <= 0:
                case.check(not ran, "admitted-at-once", "", **info)
            if elapsed >= model.recovery:
                case.check(ran, "rejected-after-recovery", "", **info)
            case.event("recover_admitted" if ran else "recover_rejected")
        if not ran:
            case.check(out[0] == "broken", "outcome", "", **info)
            if not self.inexact:
                case.check(out[1].last_exception is self.last,
                           "last-exception", "", **info)
        else:
            case.check(ran == [n], "executed-twice", "", **info)
            if exc is not None:
                case.check(out == ("exc", exc), "outcome", "", **info)
                if kind == "listed":
                    self.last = exc
                    if self.inspect == "odd":
                        counter["fail"] += n % 2
                    else:
                        counter["fail"] += 1
            else:
                case.check(out == ("ok", token), "outcome", "", **info)
                self.last = None
            counter["total"] += 1
        case.trace(state.value, bool(ran), out[0])
        case.event("calls_" + state.name)
        self.states.add(state)

    inexact = False


def sequential(case):
    mon = Monitor(case)
    drive(case, mon, False)


def via_cutout(case):
    drive(case, Monitor(case, cutout=True), False)


def overlapping(case):
    mon = Monitor(case)
    mon.inexact = True
    drive(case, mon, True)


def drive(case, mon, overlap):
    rng = case.rng

    async def main():
        tasks = []
        for _ in range(rng.randint(2, 7)):
            phase = rng.choice(
                ["fail", "fail", "fail", "ok", "ok", "mixed", "ignored",
                 "silence"],
            )
            length = rng.choice([0.5, 1, 1.5, 3]) * mon.rt
            step = rng.choice([1, 1, 2, 4, 8]) / 8 * mon.rt / 10
            # on the dyadic grid
            step = max(1, round(step * 32)) / 32
            end = mon.now() + length
            if phase == "silence":
                await asyncio.sleep(length)
                continue
            bad = rng.random()
            while mon.now() < end:
                kind = {
                    "fail": "listed", "ok": "ok", "ignored": "ignored",
                }.get(phase)
                if kind is None:
                    kind = "listed" if rng.random() < bad else rng.choice(
                        ["ok", "ok", "ignored"])
                if overlap and rng.random() < 0.5:
                    t = asyncio.ensure_future(mon.one(
                        kind, rng.choice([1, 3, 10, 40]) / 32,
                    ))
                    tasks.append(t)
                    if rng.random() < 0.1:
                        await asyncio.sleep(0)
                        t.cancel()
                    await asyncio.sleep(0)
                    await asyncio.sleep(0)
                else:
                    await mon.one(kind)
                await asyncio.sleep(step)
        if tasks:
            res = await asyncio.gather(*tasks, return_exceptions=True)
            for r in res:
                if isinstance(r, Exception):
                    raise r
        case.event("states_seen", len(mon.states))
        if len(mon.states) < 2:
            case.trivial()
    run_virtual(main, start=1024.0)


def storm_opens_and_recovers(case):
    """Only failures: it opens.  Then only successes: it passes again."""
    rng = case.rng
    ratio = rng.choice([0.1, 0.5, 0.9])
    rt = rng.choice([0.25, 0.5, 1, 2, 5])
    broken = rng.choice([None, 1, 4])
    recovery = rng.choice([None, 1, 4])
    case.trace(ratio, rt, broken, recovery)
    cb = CircuitBreaker(ratio, rt, broken_time=broken,
                        recovery_time=recovery)
    step = rt / 64

    async def main():
        loop = asyncio.get_running_loop()
        t0 = loop.time()
        calls = 0

        def fail():
            nonlocal calls
            calls += 1
            raise Boom(1)
        while True:
            try:
                cb.call(fail)
            except CircuitBroken as e:
                case.check(isinstance(e.last_exception, Boom),
                           "last-exception", repr(e.last_exception))
                break
            except Boom:
                pass
            case.check(
                loop.time() - t0 <= max(2.5 * rt, 2.5), "never-opens",
                "only failures for 2.5 windows", rt=rt, ratio=ratio,
            )
            await asyncio.sleep(step)
        opened = loop.time()
        case.check(cb.state is BROKEN, "state", "")
        want = broken or rt
        while loop.time() < opened + want - step / 2:
            n = calls
            try:
                cb.call(fail)
            except CircuitBroken:
                pass
            except Boom:
                pass
            case.check(calls == n, "called-when-broken",
                       f"{loop.time() - opened} of {want}")
            await asyncio.sleep(step)
        passed = 0
        while True:
            try:
                case.check(cb.call(lambda: 5) == 5, "outcome", "")
                passed += 1
            except CircuitBroken:
                pass
            if cb.state is PASSING:
                break
            case.check(
                loop.time() - opened <= want + (recovery or rt) + 2 * step,
                "never-recovers", "only successes after the broken time",
            )
            await asyncio.sleep(step)
        case.check(loop.time() - opened >= want + (recovery or rt) -
                   2 * step, "recovers-early", "")
        case.event("calls_passed_in_recovery", passed)
        case.event("full_cycles")
    run_virtual(main, start=1024.0)


def healthy_never_opens(case):
    """Successes, irrelevant exceptions, and failures below the ratio never
    open the circuit."""
    rng = case.rng
    ratio = rng.choice([0.3, 0.5, 0.9])
    rt = rng.choice([1, 2, 5])
    cb = CircuitBreaker(ratio, rt, exceptions=(Listed,))
    mode = rng.choice(["ok", "ignored", "below"])
    case.trace(ratio, rt, mode)

    async def main():
        for i in range(400):
            ran = []

            def work():
                ran.append(1)
                if mode == "ignored":
                    raise Ignored(i)
                if mode == "below" and i % 40 == 0:
                    raise Listed(i)
                return i
            try:
                cb.call(work)
            except Boom:
                pass
            except CircuitBroken:
                case.fail("opened-when-healthy", mode, ratio=ratio, rt=rt)
            case.check(ran, "not-called", mode)
            await asyncio.sleep(rt / 64 if i % 50 else rt / 2)
        case.event("healthy_calls", 400)
    run_virtual(main, start=1024.0)


def recovery_share(case):
    """The admitted share grows over the recovery time, as 2**x - 1."""
    rng = case.rng
    frac = rng.choice([1, 2, 3]) / 4
    cb = CircuitBreaker(1.0, 1, recovery_time=1024, broken_time=1)
    case.trace(frac)

    async def main():
        def fail():
            raise Boom(1)
        loop = asyncio.get_running_loop()
        while cb.state is not BROKEN:
            try:
                cb.call(fail)
            except (Boom, CircuitBroken):
                pass
            await asyncio.sleep(1 / 64)
        await asyncio.sleep(2)
        try:
            cb.call(lambda: 1)
        except CircuitBroken:
            pass
        case.check(cb.state is RECOVERING, "state", repr(cb.state))
        await asyncio.sleep(1024 * frac)
        ok, n = 0, 3000
        for _ in range(n):
            try:
                cb.call(lambda: 1)
                ok += 1
            except CircuitBroken:
                pass
        want = 2 ** frac - 1
        case.event("recovery_calls", n)
        # more than 7 sigma
        case.check(abs(ok / n - want) < 0.07, "recovery-share",
                   f"{ok / n} instead of {want}")
    run_virtual(main, start=1024.0)


QUICK_SCALE = 2
SCENARIOS = [
    Scenario(sequential, 1200),
    Scenario(via_cutout, 200),
    Scenario(overlapping, 300),
    Scenario(storm_opens_and_recovers, 120),
    Scenario(healthy_never_opens, 40),
    Scenario(recovery_share, 12),
]
