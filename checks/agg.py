"""Workload of the aggregation checks (virtual time)."""
import asyncio

import aiomisc
from aiomisc.aggregate import ResultNotSetError

from vf.util import Boom, outcome_of
from vf.vloop import run_virtual, steps

GRID = 1 / 8


class Run:
    """One run: calls at given times, a function with a planned behaviour
    per execution, cancellations of callers at random points."""

    def __init__(self, case, cancels=True):
        rng = self.rng = case.rng
        self.case = case
        self.n = rng.choice([1, 2, 3, 5, 8, 15, 30])
        self.max_count = rng.choice([None, 1, 2, 3, 4, 7])
        # off the grid of the calls: no call comes exactly at a deadline
        self.leeway = rng.randint(0, 12) * GRID + GRID / 2
        self.flavour = rng.choice(["plain", "async"])
        t = 0
        self.calls = []
        for i in range(self.n):
            t += rng.choice([0, 0, 0, 1, 1, 2, 5, 20]) * GRID
            self.calls.append(t)
        self.behaviours = [
            rng.choice(["ok", "ok", "ok", "raise", "partial", "single",
                        "staged", "midraise"])
            for _ in range(self.n * 3)
        ]
        self.durations = [
            rng.choice([0, 0, GRID, 3 * GRID, 10 * GRID])
            for _ in range(self.n * 3)
        ]
        self.cancel_at = {}
        if cancels:
            for i in range(self.n):
                if rng.random() < 0.25:
                    self.cancel_at[i] = (
                        self.calls[i] + rng.choice(
                            [0, 1, 2, 4, 10],
                        ) * GRID + rng.choice([0, GRID / 2, GRID / 4]),
                        rng.randint(0, 6),
                    )
        self.execs = []      # (time, [(i, value)...], behaviour)
        self.finished = []
        self.ended_at = {}
        self.outcomes = {}
        self.done_at = {}
        self.called_at = {}
        self.cancelled_at = {}
        case.describe(
            calls=self.calls, max_count=self.max_count, leeway=self.leeway,
            flavour=self.flavour, behaviours=self.behaviours[:5],
            cancels=self.cancel_at,
        )
        case.trace(self.n, self.max_count, self.leeway, self.flavour,
                   *self.calls, *sorted(self.cancel_at.items()))

    def now(self):
        return asyncio.get_running_loop().time() - 1000

    def finish(self, k):
        self.finished.append(k)
        self.ended_at[k] = self.now()

    async def body(self, values):
        """-> the list of results; raises; what the user's function does"""
        k = len(self.execs)
        self.execs.append((self.now(), list(values), self.behaviours[k]))
        if self.durations[k]:
            await asyncio.sleep(self.durations[k])
        if self.behaviours[k] == "raise":
            self.finish(k)
            raise Boom(k)
        return k

    def value(self, k, i):
        return ("result", k, i)

    def build(self):
        case = self.case
        kw = {"leeway_ms": self.leeway * 1000}
        if self.max_count is not None or self.rng.random() < 0.5:
            kw["max_count"] = self.max_count
        if self.flavour == "plain":
            @aiomisc.aggregate(**kw)
            async def func(*args):
                k = await self.body(args)
                self.finish(k)
                res = [self.value(k, i) for i in args]
                if self.behaviours[k] == "partial":
                    res = res[:-1]
                return res if k % 2 else iter(res)
        else:
            @aiomisc.aggregate_async(**kw)
            async def func(*args):
                k = await self.body([a.value for a in args])
                middle = None
                if self.behaviours[k] in ("staged", "midraise"):
                    # some outcomes are set, then it pauses or fails
                    middle = len(args) // 2
                for n, a in enumerate(args):
                    if n == middle:
                        if self.behaviours[k] == "midraise":
                            self.finish(k)
                            raise Boom(k)
                        await asyncio.sleep(GRID)
                    if a.future.done():
                        continue
                    if self.behaviours[k] == "partial" and (
                        n == len(args) - 1
                    ):
                        continue
                    if self.behaviours[k] == "single" and n % 2:
                        a.future.set_exception(Boom((k, a.value)))
                    else:
                        a.future.set_result(self.value(k, a.value))
                self.finish(k)
        case.event("flavour_" + self.flavour)
        return func

    async def main(self):
        loop = asyncio.get_running_loop()
        func = self.build()
        tasks = {}
        base = loop.time()

        async def caller(i):
            self.called_at[i] = self.now()
            try:
                return await func(i)
            finally:
                self.done_at[i] = self.now()

        async def canceller(i, at, k):
            await asyncio.sleep(base + at - loop.time())
            await steps(k)
            if i in tasks and not tasks[i].done():
                self.cancelled_at[i] = self.now()
                tasks[i].cancel()

        helpers = [
            asyncio.ensure_future(canceller(i, at, k))
            for i, (at, k) in self.cancel_at.items()
        ]
        for i, at in enumerate(self.calls):
            delay = base + at - loop.time()
            if delay > 0:
                await asyncio.sleep(delay)
            tasks[i] = loop.create_task(caller(i))
            if self.rng.random() < 0.3:
                await asyncio.sleep(0)
        done, pending = await asyncio.wait(tasks.values(), timeout=1000)
        if pending:
            self.case.fail("caller-hangs", f"{len(pending)} callers hang",
                           **self.case.sample)
        if helpers:
            await asyncio.wait(helpers)
        for i, t in tasks.items():
            self.outcomes[i] = outcome_of(t)

    def go(self):
        run_virtual(self.main)
        return self


def judge_outcomes(run):
    """Every caller gets the outcome of an execution that had its argument."""
    case = run.case
    for i in range(run.n):
        out = run.outcomes[i]
        case.event("outcome_" + out[0])
        if out[0] == "cancelled":
            case.check(i in run.cancelled_at, "spurious-cancel", str(i))
            continue
        mine = [
            k for k, (_, values, _) in enumerate(run.execs) if i in values
        ]
        case.check(mine, "not-executed", f"caller {i} got {out}")
        if out[0] == "ok":
            res = out[1]
            case.check(
                isinstance(res, tuple) and res[0] == "result" and
                res[2] == i and res[1] in mine, "foreign-result",
                f"caller {i} got {res}", execs=run.execs,
            )
            k = res[1]
            # what was set before the pause counts even if it was cancelled
            case.check(
                (k in run.finished or run.behaviours[k] == "staged")
                and run.behaviours[k] != "raise",
                "wrong-result", f"caller {i} got {res}",
            )
            continue
        exc = out[1]
        if isinstance(exc, Boom):
            k = exc.token[0] if isinstance(exc.token, tuple) else exc.token
            case.check(
                k in mine and run.behaviours[k] in (
                    "raise", "single", "midraise",
                ),
                "foreign-error", f"caller {i} got {exc!r}",
                execs=run.execs,
            )
            if isinstance(exc.token, tuple):
                case.check(exc.token[1] == i, "foreign-error", repr(exc))
            else:
                case.check(run.behaviours[k] in ("raise", "midraise"),
                           "foreign-error", repr(exc))
        elif isinstance(exc, ResultNotSetError):
            good = [
                k for k in mine if run.behaviours[k] == "partial" and
                run.execs[k][1][-1] == i
            ]
            case.check(good, "spurious-not-set", f"caller {i}",
                       execs=run.execs)
        else:
            case.fail("unexpected-error", f"caller {i}: {exc!r}")


def judge_batches(run):
    """The batches partition the calls, in order."""
    case = run.case
    batches = {}
    for _, values, _ in run.execs:
        case.check(values == sorted(values) and
                   len(set(values)) == len(values), "batch-order",
                   str(values))
        batches.setdefault(tuple(values), 0)
        batches[tuple(values)] += 1
    seen = set()
    for values, times in batches.items():
        case.check(not seen & set(values), "overlapping-batches",
                   str(list(batches)))
        seen |= set(values)
        span = [
            i for i in range(values[0], values[-1] + 1)
            if i in run.called_at
        ]
        case.check(list(values) == span, "not-consecutive", str(values))
        gone = [v for v in values if v in run.cancelled_at]
        case.check(times <= 1 + len(gone), "executed-again",
                   f"batch {values} executed {times} times, "
                   f"{len(gone)} cancelled")
        if times > 1:
            case.event("reexecuted")
    for i in range(run.n):
        if i not in seen:
            case.check(i in run.cancelled_at, "not-executed", str(i))
            continue
        case.check(i in run.called_at, "never-called", str(i))
    case.event("batches", len(batches))
    return batches
