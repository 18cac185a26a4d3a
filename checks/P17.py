import asyncio
import threading
import time

import aiomisc
from aiomisc.context import Context

from vf.core import Scenario
from vf.util import Token, eventually, outcome_of
from vf.vloop import run_real, run_virtual, steps

RULE = (
    "readers and writers of random context keys at random virtual times, "
    "readers cancelled or timing out, several contexts; writers in other "
    "threads in real time; distinct by plan"
)
G = 1 / 8


def register(case):
    rng = case.rng
    keys = [rng.choice(["a", "b", 1, ("t", 2), None])
            for _ in range(rng.randint(1, 3))]
    horizon = 30
    plan = []
    for i in range(rng.choice([3, 10, 30])):
        t = rng.randint(0, horizon) * G
        key = rng.choice(keys)
        op = rng.choice(["set", "get", "get", "get_cancel", "get_timeout",
                         "hold"])
        plan.append((t, op, key, rng.choice([0, 1, 3, 9]) * G + G / 2,
                     rng.randint(0, 4)))
    plan.sort(key=lambda p: p[0])
    value_kind = rng.choice(["token", "falsy", "exception"])
    case.trace(value_kind, *plan)
    case.describe(plan=plan[:12], values=value_kind)

    async def main():
        loop = asyncio.get_running_loop()
        ctx = Context(loop)
        case.check(aiomisc.get_context() is ctx, "get_context", "")
        sets = []       # (time, key, value)
        gets = []

        def now():
            return loop.time() - 1000

        async def read(rec, awaitable=None):
            rec["began"] = now()
            rec["value"] = await (awaitable or ctx[rec["key"]])
            rec["done"] = now()

        async def one(i, t, op, key, extra, k):
            await asyncio.sleep(t)
            if op == "set":
                v = Token(i)
                if value_kind == "falsy":
                    v = rng.choice([None, 0, "", False, []])
                elif value_kind == "exception":
                    v = rng.choice([ValueError(i), asyncio.CancelledError()])
                sets.append((now(), key, v))
                ctx[key] = v
                case.event("sets")
                return
            rec = {"key": key, "i": i, "op": op, "done": None,
                   "cancelled": False}
            gets.append(rec)
            case.event("gets")
            if op == "get":
                await read(rec)
            elif op == "hold":
                # an awaitable obtained now and awaited later
                aw = ctx[key]
                rec["began"] = now()
                await asyncio.sleep(extra)
                rec["value"] = await aw
                rec["done"] = now()
            elif op == "get_timeout":
                try:
                    await asyncio.wait_for(read(rec), extra)
                except asyncio.TimeoutError:
                    rec["cancelled"] = True
                    case.event("timeouts")
            else:
                task = asyncio.ensure_future(read(rec))
                await asyncio.sleep(extra)
                await steps(k)
                if not task.done():
                    task.cancel()
                    rec["cancelled"] = True
                    case.event("cancelled_reads")
                await asyncio.wait([task])
                o = outcome_of(task)
                case.check(o[0] == ("cancelled" if rec["cancelled"]
                                    else "ok"), "reader-outcome", repr(o))
        tasks = [loop.create_task(one(i, *p)) for i, p in enumerate(plan)]
        await asyncio.sleep(horizon * G + 5)
        for t in tasks:
            if t.done():
                o = outcome_of(t)
                if o[0] == "exc":
                    raise o[1]
                case.check(o[0] == "ok", "cancelled-by-others", repr(o),
                           plan=case.sample)
        end = now()
        for rec in gets:
            mine = [(t, v) for t, k, v in sets if k == rec["key"]]
            before = [(t, v) for t, v in mine if t < rec["began"]]
            same = [(t, v) for t, v in mine if t == rec["began"]]
            after = [(t, v) for t, v in mine if t > rec["began"]]
            allowed = [v for _, v in same]
            if before:
                allowed.append(before[-1][1])
            elif not same and after:
                first = after[0][0]
                allowed = [v for t, v in after if t == first]
            if rec["done"] is None:
                case.check(rec["cancelled"] or not mine or
                           not allowed or end < rec["began"],
                           "reader-hangs",
                           f"{rec} though {mine}", plan=case.sample)
                continue
            case.check(any(rec["value"] is v for v in allowed),
                       "wrong-value", f"{rec} not in {allowed}",
                       plan=case.sample)
            if rec["op"] == "get":
                when = rec["began"] if before or same else after[0][0]
                case.check(rec["done"] == when, "late",
                           f"{rec} instead of {when}", plan=case.sample)
        for t in tasks:
            t.cancel()
        await asyncio.wait(tasks)
        ctx.close()
        try:
            aiomisc.get_context()
        except Exception:
            pass
        else:
            case.fail("context-after-close", "")
    run_virtual(main)


def threads(case):
    """Writers in threads: readers see every completed write, in order."""
    rng = case.rng
    nkeys = rng.randint(1, 3)
    per = rng.choice([5, 30, 100])
    kind = rng.choice(["asyncio", "uvloop"])
    case.trace(nkeys, per, kind, rng.random())

    async def noop():
        pass

    async def main():
        loop = asyncio.get_running_loop()
        ctx = Context(loop)
        floor = [0] * nkeys
        errors = []

        def writer(k):
            try:
                for n in range(1, per + 1):
                    ctx[k] = n
                    if n % 3 == 0:
                        asyncio.run_coroutine_threadsafe(
                            noop(), loop).result(20)
                        floor[k] = n
            except Exception as e:
                errors.append(e)
        ths = [threading.Thread(target=writer, args=(k,), daemon=True)
               for k in range(nkeys)]
        for t in ths:
            t.start()

        async def reader(k):
            last = 0
            while last < per:
                f = floor[k]
                v = await asyncio.wait_for(ctx[k], 20)
                case.check(v >= f, "stale-read",
                           f"{v} read after {f} had been set")
                case.check(v >= last, "non-monotonic", f"{v} after {last}")
                last = v
                case.event("reads")
                await asyncio.sleep(0)

        async def vandal(k):
            for _ in range(20):
                t = asyncio.ensure_future(ctx[k])
                await asyncio.sleep(0)
                t.cancel()
        await asyncio.gather(*[reader(k) for k in range(nkeys)] * 2,
                             *[vandal(k) for k in range(nkeys)])
        await eventually(lambda: not any(t.is_alive() for t in ths), 30)
        case.check(not errors, "setter-failed", f"{errors}")
        ctx.close()
    run_real(main, kind=kind)


def loops(case):
    """Contexts of different loops (entrypoints) are independent."""
    rng = case.rng
    n = rng.randint(2, 4)
    case.trace(n, rng.random())
    problems = []
    barrier = threading.Barrier(n)
    contexts = set()
    first_left = threading.Event()

    async def read(ctx):
        return await ctx["key"]

    def program(i):
        class Reader(aiomisc.Service):
            async def start(self):
                v = await self.context["key"]
                if v != i:
                    problems.append((i, v))
                case.event("reads")

        class Writer(aiomisc.Service):
            async def start(self):
                barrier.wait(20)
                self.context["key"] = i
                contexts.add(id(aiomisc.get_context()))
        try:
            with aiomisc.entrypoint(
                Reader(), Writer(), Reader(), log_config=False,
            ) as loop:
                ctx = aiomisc.get_context(loop)
                loop.run_until_complete(asyncio.sleep(0))
                barrier.wait(20)
                if i:
                    # the context of another loop has been closed meanwhile
                    first_left.wait(20)
                    if aiomisc.get_context(loop) is not ctx:
                        problems.append((i, "another context"))
                    value = loop.run_until_complete(read(ctx))
                    if value != i:
                        problems.append((i, value))
                del ctx
            if not i:
                first_left.set()
            try:
                aiomisc.get_context(loop)
            except RuntimeError:
                pass
            else:
                problems.append((i, "context of a closed loop"))
        except BaseException as e:
            problems.append((i, repr(e)))
            first_left.set()
    ths = [threading.Thread(target=program, args=(i,)) for i in range(n)]
    for t in ths:
        t.start()
    for t in ths:
        t.join(40)
        if t.is_alive():
            case.fail("hang", "")
    case.check(not problems, "mixed-contexts", f"{problems}")
    case.check(len(contexts) == n, "shared-context", "")


def wakeup(case):
    """A thread sets a key while everybody in the loop waits for it."""
    rng = case.rng
    kind = rng.choice(["asyncio", "uvloop"])
    debug = rng.random() < 0.5
    n = rng.choice([1, 2, 10])
    rounds = rng.choice([1, 3])
    case.trace(kind, debug, n, rounds, rng.random())

    async def main():
        loop = asyncio.get_running_loop()
        ctx = Context(loop)
        errors = []

        def writer(key, value, delay):
            time.sleep(delay)
            try:
                ctx[key] = value
            except Exception as e:
                errors.append(e)

        for r in range(rounds):
            value = rng.choice([None, 0, "", r, object()])
            th = threading.Thread(target=writer, args=(
                r, value, rng.choice([0.01, 0.03])))
            th.start()
            t0 = time.monotonic()
            got = await asyncio.wait_for(
                asyncio.gather(*[ctx[r] for _ in range(n)]), 20)
            took = time.monotonic() - t0
            case.check_soft(took < 10, "late-wakeup",
                            f"the readers were woken after {took}")
            case.check(all(v is value for v in got), "value", repr(got))
            case.event("wakeups", n)
            th.join(20)
        case.check(not errors, "setter-failed", f"{errors}")
        ctx.close()
    run_real(main, kind=kind, debug=debug)


QUICK_SCALE = 4
SCENARIOS = [
    Scenario(wakeup, 100),
    Scenario(register, 4000),
    Scenario(threads, 60),
    Scenario(loops, 40),
]
