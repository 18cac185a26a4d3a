import asyncio
import gc
import logging

import aiomisc
from aiomisc.periodic import PeriodicCallback
from aiomisc.recurring import (
    RecurringCallback, StrategyException, StrategySkip, StrategyStop,
)
from aiomisc.service.periodic import PeriodicService

from vf.core import Scenario
from vf.util import Boom, outcome_of
from vf.vloop import run_virtual, steps

RULE = (
    "recurring and periodic callbacks in virtual time with functions of "
    "random durations and failures, random strategies, stopped at a random "
    "virtual time plus k loop iterations, restarted; every call is compared "
    "to an exact model; distinct by plan and calls"
)
G = 1 / 8


class Listed(Boom):
    pass


class Func:
    """The user's function: its n-th call behaves as planned."""

    def __init__(self, case, rng):
        self.case = case
        self.sync = rng.random() < 0.25
        self.plan = []
        for _ in range(60):
            dur = 0 if self.sync else rng.choice([0, 0, 1, 2, 3, 10]) * G
            self.plan.append((dur, rng.choice(
                ["ok", "ok", "ok", "raise", "listed", "cancel"],
            )))
        self.calls = []
        self.running = 0
        self.cleanup = rng.choice([0, 0, 2]) * G
        case.trace(self.sync, self.cleanup, *self.plan[:8])

    def now(self):
        return asyncio.get_running_loop().time() - 1000

    def begin(self, args, kwargs):
        rec = [self.now(), None, None]
        self.calls.append(rec)
        self.case.check(args == (1, "a") and kwargs == {"k": 2},
                        "arguments", repr((args, kwargs)))
        self.running += 1
        if self.running > 1:
            self.case.note("overlap", "two calls run at once",
                           calls=self.calls)
        return rec, self.plan[(len(self.calls) - 1) % len(self.plan)]

    def finish(self, rec, how):
        self.running -= 1
        rec[1], rec[2] = self.now(), how

    def result(self, kind, n):
        if kind == "raise":
            raise Boom(n)
        if kind == "listed":
            raise Listed(n)
        if kind == "cancel":
            raise asyncio.CancelledError
        return n

    def func(self):
        def sync(*args, **kwargs):
            rec, (_, kind) = self.begin(args, kwargs)
            self.finish(rec, "end")
            return self.result(kind, len(self.calls))

        async def asyn(*args, **kwargs):
            rec, (dur, kind) = self.begin(args, kwargs)
            how = "cancelled"
            try:
                if dur:
                    await asyncio.sleep(dur)
                how = "end"
            finally:
                if how == "cancelled" and self.cleanup:
                    await asyncio.sleep(self.cleanup)
                self.finish(rec, how)
            return self.result(kind, len(self.calls))
        return sync if self.sync else asyn


class Errors(logging.Handler):
    """Collects what the callbacks log about errors of the function."""

    def __init__(self, case, suppress):
        super().__init__(logging.ERROR)
        self.case, self.suppress, self.tokens = case, suppress, []
        self.log = logging.getLogger("aiomisc.recurring")

    def emit(self, record):
        exc = record.exc_info and record.exc_info[1]
        self.tokens.append(getattr(exc, "token", repr(exc)))

    def __enter__(self):
        self.log.addHandler(self)
        self.propagate, self.log.propagate = self.log.propagate, False
        return self

    def __exit__(self, *_):
        self.log.removeHandler(self)
        self.log.propagate = self.propagate

    def judge(self, f):
        want = []
        for i, (_, _, how) in enumerate(f.calls):
            kind = f.plan[i % len(f.plan)][1]
            exc = {"raise": Boom, "listed": Listed}.get(kind)
            if how == "end" and exc and not issubclass(
                exc, tuple(self.suppress),
            ):
                want.append(i + 1)
        self.case.check(
            self.tokens == want, "errors-logged",
            f"errors of the calls {self.tokens} were logged, not {want}",
            suppress=repr(self.suppress), plan=f.plan[:len(f.calls)],
        )
        self.case.event("errors", len(want))
        self.tokens.clear()


def judge_loop(case, loop):
    if case.rng.random() < 0.1:
        gc.collect()
    case.check(not loop.unhandled, "unhandled", repr(loop.unhandled[:1]))


def compare(case, f, want, stop, shield, what):
    """want: [(start, end)] as if it was never stopped."""
    got = [tuple(c) for c in f.calls]
    info = dict(got=got[-4:], want=want[max(0, len(got) - 4):len(got) + 2],
                stop=stop, plan=case.sample)
    for i, (s, e, how) in enumerate(got):
        case.check(i < len(want) and s == want[i][0], "call-time",
                   f"{what}: call {i} at {s}", **info)
        case.check(e is not None, "call-lost", f"call {i}", **info)
        if want[i][1] <= stop or shield:
            if want[i][1] == stop:
                continue
            case.check((e, how) == (want[i][1], "end"), "call-end",
                       f"{what}: call {i}", **info)
        else:
            case.check(how == "cancelled" and e == stop + f.cleanup,
                       "not-cancelled", f"{what}: call {i}", **info)
    must = [w for w in want if w[0] < stop]
    may = [w for w in want if w[0] <= stop]
    case.check(len(must) <= len(got) <= len(may), "call-count",
               f"{what}: {len(got)} calls instead of {len(must)}", **info)
    case.event("calls", len(got))


def periodic(case):
    rng = case.rng
    f = Func(case, rng)
    interval = rng.choice([1, 2, 3, 8]) * G
    delay = rng.choice([0, 1, 5]) * G if rng.random() < .7 else None
    shield = rng.random() < 0.3
    suppress = rng.choice([(), (Listed,), (Exception,)])
    rounds = rng.choice([1, 1, 2, 3])
    case.describe(interval=interval, delay=delay, shield=shield,
                  rounds=rounds, plan=f.plan[:6], sync=f.sync)
    case.trace(interval, delay, shield, rounds)

    async def main():
        loop = asyncio.get_running_loop()
        pc = PeriodicCallback(f.func(), 1, "a", k=2)
        for r in range(rounds):
            f.calls.clear()
            base = loop.time() - 1000
            kw = {} if delay is None else {"delay": delay}
            if rng.random() < 0.5:
                kw["loop"] = loop
            pc.start(interval, shield=shield, suppress_exceptions=suppress,
                     **kw)
            if rng.random() < 0.3:
                try:
                    pc.start(interval)
                except asyncio.InvalidStateError:
                    pass
                else:
                    case.fail("started-twice", "")
            length = rng.choice([rng.randint(0, 40) * G,
                                 rng.randint(0, 40) * G + G / 2])
            await asyncio.sleep(length)
            await steps(rng.choice([0, 0, 1, 2, 5]))
            stop = loop.time() - 1000
            mode = rng.choice(["plain", "return", "nowait"])
            fut = pc.stop(return_exceptions=mode == "return")
            if mode == "nowait":
                fut.add_done_callback(
                    lambda x: x.cancelled() or x.exception())
            else:
                try:
                    await fut
                    case.check(mode == "return", "stop-outcome", "")
                except asyncio.CancelledError:
                    case.check(mode == "plain", "stop-outcome", "")
                if not shield:
                    case.check(f.running == 0, "running-after-stop",
                               "stop() has finished, the call has not")
            if rng.random() < 0.5 or mode == "nowait" or shield:
                await asyncio.sleep(30)
                case.check(all(c[0] <= stop for c in f.calls),
                           "call-after-stop", repr(f.calls[-1:]))
            want = []
            t = base + (delay or 0)
            for dur, _ in f.plan:
                want.append((t, t + dur))
                t += dur + interval
            compare(case, f, want, stop, shield, f"round {r}")
            if all(c[1] is not None for c in f.calls):
                errors.judge(f)
        judge_loop(case, loop)
    with Errors(case, suppress) as errors:
        run_virtual(main)


def not_started(case):
    async def main():
        pc = PeriodicCallback(lambda: None)
        try:
            await pc.stop()
        except RuntimeError:
            pass
        else:
            case.fail("stop-not-started", "no error")
        case.event("stop_not_started")
    run_virtual(main)


def recurring(case):
    rng = case.rng
    f = Func(case, rng)
    shield = rng.random() < 0.3
    suppress = rng.choice([(), (Listed,), (Exception,)])
    script = []
    for _ in range(rng.choice([1, 3, 10, 40])):
        script.append(rng.choice(
            [("delay", rng.choice([0, 0, 1, 2, 9]) * G)] * 6 +
            [("negative", -1), ("skip", rng.choice([0, 1, 4]) * G)],
        ))
    script.append(rng.choice([
        ("stop", None), ("stop", None), ("wrong", "1"), ("wrong", None),
        ("error", None), ("base", None),
    ]))
    async_strategy = rng.random() < 0.4
    sdur = rng.choice([0, 0, 1]) * G if async_strategy else 0
    case.describe(script=script[:8], shield=shield, plan=f.plan[:6],
                  async_strategy=async_strategy, sdur=sdur)
    case.trace(shield, async_strategy, sdur, *script)
    asked = []
    rc = RecurringCallback(f.func(), 1, "a", k=2)

    def decide(cb):
        case.check(cb is rc, "strategy-argument", repr(cb))
        case.check(f.running == 0, "strategy-during-call", "")
        n = len(asked)
        asked.append(f.now())
        case.check(n < len(script), "asked-after-end", "")
        kind, value = script[n]
        if kind == "skip":
            raise StrategySkip(value)
        if kind == "stop":
            raise StrategyStop
        if kind == "base":
            raise StrategyException
        if kind == "error":
            raise Boom("strategy")
        return value

    async def adecide(cb):
        if sdur:
            await asyncio.sleep(sdur)
        return decide(cb)

    stopped = rng.random() < 0.6

    async def main():
        loop = asyncio.get_running_loop()
        task = rc.start(adecide if async_strategy else decide,
                        shield=shield, suppress_exceptions=suppress)
        want, t, end, calls = [], 0.0, None, 0
        for kind, value in script:
            t += sdur
            if kind in ("delay", "negative"):
                t += max(value, 0)
                dur = f.plan[calls % len(f.plan)][0]
                want.append((t, t + dur))
                t += dur
                calls += 1
            elif kind == "skip":
                t += value
            else:
                end = t
        stop = float("inf")
        if stopped:
            await asyncio.sleep(rng.randint(0, 60) * G + rng.choice(
                [0, G / 2]))
            await steps(rng.choice([0, 0, 1, 2, 5]))
            if not task.done():
                stop = loop.time() - 1000
                task.cancel()
        done, pending = await asyncio.wait([task], timeout=10 ** 5)
        case.check(not pending, "hang", "", **case.sample)
        ended = loop.time() - 1000
        out = outcome_of(task)
        if stop != float("inf"):
            case.check(out[0] == "cancelled", "outcome", repr(out))
            if not shield:
                case.check(f.running == 0, "running-after-stop", "")
            case.event("stopped")
        else:
            case.check(ended >= end, "ended-early", "")
            if not stopped:
                case.check(ended == end, "end-time", f"{ended} {end}")
            if script[-1][0] == "error":
                case.check(out[0] == "exc" and isinstance(out[1], Boom) and
                           out[1].token == "strategy", "outcome", repr(out))
            else:
                case.check(out == ("ok", None), "outcome", repr(out))
            case.check(len(asked) == len(script), "strategy-calls", "")
            case.event("ended")
        await asyncio.sleep(30)
        case.check(all(c[0] <= ended for c in f.calls),
                   "call-after-stop", repr(f.calls[-1:]))
        compare(case, f, want, stop, shield, "recurring")
        errors.judge(f)
        judge_loop(case, loop)
    with Errors(case, suppress) as errors:
        run_virtual(main)


def service(case):
    """PeriodicService: as the periodic callback, from start to stop."""
    rng = case.rng
    f = Func(case, rng)
    f.sync = False
    interval = rng.choice([1, 2, 3, 8]) * G
    delay = rng.choice([0, 1, 5]) * G if rng.random() < 0.6 else None
    length = rng.randint(0, 50) * G + G / 2
    rounds = rng.choice([1, 1, 2, 3])
    as_attrs = rng.random() < 0.4
    via_entrypoint = rounds == 1 and rng.random() < 0.6
    case.describe(interval=interval, delay=delay, length=length,
                  plan=f.plan[:6], rounds=rounds)
    case.trace("service", interval, delay, length, rounds, via_entrypoint)
    func = f.func()
    kw = {"interval": interval}
    if delay is not None:
        kw["delay"] = delay

    class Svc(PeriodicService):
        async def callback(self):
            case.check(self is svc, "self", repr(self))
            return await func(1, "a", k=2)

    if as_attrs and delay is not None:
        Svc = type("Sub", (Svc,), {"delay": kw.pop("delay")})
    svc = Svc(**kw)

    async def main():
        loop = asyncio.get_running_loop()
        for r in range(rounds):
            f.calls.clear()
            errors.tokens.clear()
            before = asyncio.all_tasks()
            base = loop.time() - 1000
            if via_entrypoint:
                async with aiomisc.entrypoint(
                    svc, log_config=False, catch_signals=(),
                ):
                    await asyncio.sleep(length)
                    stop = loop.time() - 1000
            else:
                svc.set_loop(loop)
                await svc.start()
                await asyncio.sleep(length)
                stop = loop.time() - 1000
                await svc.stop()
            case.check(f.running == 0, "running-after-stop",
                       "the service is stopped, the call is not")
            left = asyncio.all_tasks() - before
            case.check(not left, "tasks-left", repr(left)[:300])
            await asyncio.sleep(30)
            want, t = [], base + (delay or 0)
            for dur, _ in f.plan:
                want.append((t, t + dur))
                t += dur + interval
            compare(case, f, want, stop, False, f"service {r}")
            errors.judge(f)
        judge_loop(case, loop)
    with Errors(case, ()) as errors:
        run_virtual(main)


QUICK_SCALE = 3
SCENARIOS = [
    Scenario(service, 1000),
    Scenario(periodic, 2500),
    Scenario(recurring, 2500),
    Scenario(not_started, 2),
]
