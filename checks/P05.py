import asyncio
import gc
import threading
import time

import aiomisc
import aiomisc.iterator_wrapper as iw_mod
import aiomisc.thread_pool as tp_mod

from vf.core import Scenario
from vf.inject import maybe_inject
from vf.util import Boom, Log, eventually, policy

RULE = (
    "threaded iterables abandoned at a random point by break, close, "
    "async with, task cancellation, an error of the consumer or garbage "
    "collection, for all queue sizes and generator speeds, with preemption "
    "injected; distinct by plan and by how far each side got"
)


def run(coro, pool_size, kind):
    return aiomisc.run(
        coro, pool_size=pool_size, policy=policy(kind), log_config=False,
    )


def early_close(case):
    rng = case.rng
    kind = rng.choice(["asyncio", "uvloop"])
    ms = rng.choice([0, 1, 1, 2, 8])
    n = rng.choice([0, 1, 2, 5, 20, 10 ** 9])
    slow = rng.choice([0, 0, 0.001, 0.01])
    consumer = rng.choice([0, 0, 0.001])
    take = rng.choice([0, 0, 1, 2, 3, 7])
    how = rng.choice([
        "with", "with-error", "close", "close-nowait", "cancel", "break",
        "unused", "gc", "gc-thread", "close-twice",
    ])
    separate = rng.random() < 0.3
    swallow = rng.choice(["no", "no", "catch", "yield"])
    if n == 10 ** 9 and ms == 0 and slow == 0:
        slow = 0.0005   # an unbounded queue of a fast producer eats memory
    case.describe(loop=kind, max_size=ms, n=n, slow=slow, take=take, how=how,
                  separate=separate, swallow=swallow)
    case.trace(kind, ms, n, slow, consumer, take, how, separate, swallow)
    log = Log()
    state = {"produced": 0, "alive": 0}

    def gen():
        log("enter")
        state["alive"] += 1
        try:
            for i in range(n):
                if slow:
                    time.sleep(slow)
                state["produced"] += 1
                if swallow == "no":
                    yield i
                    continue
                try:
                    yield i
                except Exception:
                    log("caught")
                    if swallow == "catch":
                        return
        finally:
            state["alive"] -= 1
            log("exit", threading.get_ident())

    deco = (
        aiomisc.threaded_iterable_separate if separate
        else aiomisc.threaded_iterable
    )(max_size=ms)
    got = []

    async def consume(it):
        async for x in it:
            got.append(x)
            if consumer:
                await asyncio.sleep(consumer)
            if len(got) >= take:
                return "enough"
        return "end"

    async def bounded(what, aw, t=20):
        try:
            return await asyncio.wait_for(aw, t)
        except asyncio.TimeoutError:
            case.soft("hang", f"{what} did not finish", **case.sample)

    async def scenario():
        it = deco(gen)()
        if how == "unused":
            mode = rng.choice(["close", "with"])
            if mode == "with":
                async def w():
                    async with it:
                        pass
                await bounded("async with", w())
            else:
                await bounded("close", it.close())
            return
        if how in ("with", "with-error"):
            async def w():
                async with it:
                    if take:
                        await consume(it)
                    if how == "with-error":
                        raise Boom("consumer")
            try:
                await bounded("async with", w())
                case.check(how == "with", "error-suppressed", "")
            except Boom:
                pass
            case.check(it.closed, "not-closed", "")
            return
        if how in ("close", "close-nowait", "close-twice"):
            if take:
                await bounded("consume", consume(it))
            else:
                aiter(it)
                for _ in range(rng.randint(0, 3)):
                    await asyncio.sleep(0)
            fut = it.close()
            if how == "close-twice":
                await bounded("close", it.close())
            if how != "close-nowait":
                await bounded("close", fut)
            case.check(it.closed, "not-closed", "")
            return
        if how == "cancel":
            async def w():
                async with it:
                    async for x in it:
                        got.append(x)
                        # (reading available items does not suspend)
                        await asyncio.sleep(0)
            t = asyncio.ensure_future(w())
            for _ in range(rng.randint(0, 6)):
                await asyncio.sleep(0)
            await asyncio.sleep(rng.choice([0, 0.002, 0.01]))
            t.cancel()
            done, pending = await asyncio.wait([t], timeout=20)
            case.check_soft(not pending, "hang", "cancelled consumer")
            case.check(t.cancelled() or not t.exception(), "wrong-outcome",
                       repr(t))
            if n == 10 ** 9:
                case.check(t.cancelled(), "cancel-suppressed", repr(t))
            return
        if how == "gc-thread":
            # collected while another thread allocates
            gc.disable()
            case.defer(gc.enable)
            cycle = [aiter(it)]
            cycle.append(cycle)
            for _ in range(min(take, n)):
                got.append(await anext(cycle[0]))
            del it, cycle
            await aiomisc.threaded_separate(gc.collect)()
            gc.enable()
            return
        # the iterator is just dropped
        await bounded("consume", consume(it))
        del it
        if how == "gc":
            gc.collect()

    async def main():
        await scenario()
        gc.collect()
        # the generator ends, and so its thread
        ok = await eventually(
            lambda: log.count("enter") == log.count("exit"), 20,
        )
        case.check_soft(ok, "not-finalised",
                        "the generator is still running", **case.sample)
        produced = state["produced"]
        # the only thread of the pool is available again
        res = await bounded(
            "the next call in the pool", aiomisc.threaded(lambda: 42)(),
        )
        case.check(res == 42, "wrong-result", repr(res))
        case.check(state["produced"] == produced, "runs-after-close",
                   "the generator goes on after it has been closed")
        case.check(got == list(range(len(got))), "wrong-sequence", str(got))
        case.trace(len(got), produced if produced < 10 else "many")
        case.event("items", len(got))
        case.event("closed_" + how)

    with maybe_inject(case, iw_mod, tp_mod, prob=0.6) as inj:
        run(main(), 1, kind)
        case.event("preemptions", inj.delays)


def close_waits(case):
    """After close() has finished, or async with has been left, the generator
    has been finalised."""
    rng = case.rng
    kind = rng.choice(["asyncio", "uvloop"])
    ms = rng.choice([0, 1, 2])
    cleanup = rng.choice([0, 0.005, 0.05])
    take = rng.randint(1, 4)
    how = rng.choice(["close", "with", "break", "error", "cancel"])
    case.trace(kind, ms, cleanup, take, how)
    case.describe(loop=kind, max_size=ms, cleanup=cleanup, how=how)
    done = []

    def gen():
        try:
            for i in range(10 ** 9):
                if ms == 0:
                    time.sleep(0.0005)
                yield i
        finally:
            time.sleep(cleanup)
            done.append(1)

    async def main():
        it = aiomisc.threaded_iterable(max_size=ms)(gen)()
        started = asyncio.Event()

        async def close():
            ait = aiter(it)
            for _ in range(take):
                await anext(ait)
            await it.close()

        async def leave():
            n = 0
            async with it as opened:
                if how == "with":
                    ait = aiter(opened)
                    for _ in range(take):
                        await anext(ait)
                    return
                async for _ in opened:
                    started.set()
                    await asyncio.sleep(0)
                    n += 1
                    if n == take and how == "error":
                        raise Boom("reader")
                    if n == take and how == "break":
                        break
        task = asyncio.ensure_future(close() if how == "close" else leave())
        if how == "cancel":
            await started.wait()
            task.cancel()
        _, pending = await asyncio.wait([task], timeout=20)
        if pending:
            case.soft("hang", how)
        case.check(done == [1], "not-finalised",
                   f"{how} finished before the generator was finalised")
        case.check(
            task.cancelled() if how == "cancel" else
            isinstance(task.exception(), Boom) == (how == "error"),
            "wrong-outcome", repr(task))
        case.event("closed")
    with maybe_inject(case, iw_mod, tp_mod):
        run(main(), 2, kind)


def many_abandoned(case):
    """More abandoned iterators than threads do not exhaust the pool."""
    rng = case.rng
    kind = rng.choice(["asyncio", "uvloop"])
    pool = rng.choice([1, 2, 4])
    n = pool * 2 + rng.randint(1, 4)
    ms = rng.choice([1, 2])
    case.trace(kind, pool, n, ms)
    alive = []

    def gen(i):
        alive.append(i)
        try:
            for x in range(10 ** 9):
                yield x
        finally:
            alive.remove(i)

    async def main():
        for i in range(n):
            async def one():
                async for x in aiomisc.threaded_iterable(max_size=ms)(gen)(i):
                    if x >= rng.randint(0, 3):
                        break
            try:
                await asyncio.wait_for(one(), 20)
            except asyncio.TimeoutError:
                case.soft("pool-exhausted",
                          f"iterator {i} of {n} can not run, pool {pool}")
            gc.collect()
        ok = await eventually(lambda: not alive, 20)
        case.check_soft(ok, "not-finalised", str(alive))
        case.event("abandoned", n)
    with maybe_inject(case, iw_mod, tp_mod, prob=0.3):
        run(main(), pool, kind)


QUICK_SCALE = 3
SCENARIOS = [
    Scenario(early_close, 600, timeout=100),
    Scenario(close_waits, 60, timeout=100),
    Scenario(many_abandoned, 40, timeout=100),
]
