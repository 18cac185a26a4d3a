import asyncio
import threading
import time

import aiomisc.thread_pool as tp_mod
from aiomisc.thread_pool import ThreadPoolExecutor, run_in_executor

from vf.core import Scenario
from vf.inject import maybe_inject
from vf.util import Log, eventually_sync, outcome_of
from vf.vloop import run_real

RULE = (
    "pools of every size 1..12 filled with blocking calls (barriers, random "
    "bursts) and shut down at random points from the loop's or a foreign "
    "thread, with preemption injected in the pool; distinct by plan and by "
    "the observed order of executions and outcomes"
)


class Gauge:
    def __init__(self):
        self.lock = threading.Lock()
        self.now = self.peak = self.total = 0

    def __enter__(self):
        with self.lock:
            self.now += 1
            self.total += 1
            self.peak = max(self.peak, self.now)

    def __exit__(self, *_):
        with self.lock:
            self.now -= 1


def pool_threads(before):
    return [t for t in threading.enumerate() if t not in before]


def simultaneous(case):
    """N blocking calls which wait for each other all run at once."""
    rng = case.rng
    size = rng.randint(1, 12)
    kind = rng.choice(["asyncio", "uvloop"])
    rounds = rng.randint(1, 3)
    case.describe(pool=size, loop=kind, rounds=rounds)
    case.trace(size, kind, rounds)
    pool = ThreadPoolExecutor(size)
    case.defer(pool.shutdown, False)
    gauge = Gauge()

    async def main():
        for r in range(rounds):
            # a warm up of short calls
            warm = rng.randint(0, 6)
            await asyncio.gather(*[
                pool.submit(time.sleep, 0) for _ in range(warm)
            ])
            barrier = threading.Barrier(size)

            def wait(i):
                with gauge:
                    barrier.wait(25)
                return i
            futs = []
            for i in range(size):
                if rng.random() < 0.5:
                    futs.append(pool.submit(wait, i))
                else:
                    futs.append(asyncio.ensure_future(
                        run_in_executor(wait, pool, (i,)),
                    ))
                if rng.random() < 0.3:
                    await asyncio.sleep(rng.choice([0, 0.001]))
            extra = [pool.submit(lambda: None)
                     for _ in range(rng.randint(0, 5))]
            res = await asyncio.gather(*futs, return_exceptions=True)
            broken = [x for x in res if isinstance(x, Exception)]
            case.check_soft(not broken, "not-simultaneous",
                            "blocking calls did not run simultaneously",
                            size=size, broken=len(broken))
            case.check(res == list(range(size)), "wrong-result", str(res))
            await asyncio.gather(*extra)
            case.event("barriers")
    with maybe_inject(case, tp_mod, rate=0.01) as inj:
        run_real(main, kind=kind)
        case.event("preemptions", inj.delays)
    case.check(gauge.peak <= size, "over-limit",
               f"{gauge.peak} calls at once in a pool of {size}")


def bounded(case):
    """Never more calls at once than the pool's size, under any burst."""
    rng = case.rng
    size = rng.randint(1, 6)
    n = rng.randint(size, 50)
    case.trace(size, n)
    pool = ThreadPoolExecutor(size)
    case.defer(pool.shutdown, False)
    before = set(threading.enumerate())
    gauge = Gauge()
    over = []

    def work(d):
        with gauge:
            if gauge.now > size:
                over.append(gauge.now)
            time.sleep(d)

    async def main(share, seed):
        import random
        r = random.Random(seed)
        futs = []
        for i in range(share):
            f = pool.submit(work, r.choice([0, 0.001, 0.004]))
            futs.append(f)
            if r.random() < 0.3:
                await asyncio.sleep(r.choice([0, 0.001, 0.003]))
            if r.random() < 0.15:
                r.choice(futs).cancel()
        await asyncio.wait(futs)
    with maybe_inject(case, tp_mod, rate=0.01) as inj:
        ths = [
            threading.Thread(target=run_real, args=(main, n, rng.random()))
            for _ in range(rng.choice([1, 1, 2, 3]))
        ]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        case.event("preemptions", inj.delays)
    case.event("calls", gauge.total)
    case.trace(gauge.peak, gauge.total)
    threads = [t for t in pool_threads(before) if t not in ths]
    case.check(not over and gauge.peak <= size, "over-limit",
               f"{gauge.peak} calls at once in a pool of {size}")
    case.check(len(threads) <= size, "too-many-threads", str(len(threads)))


def shutdown(case):
    """Shutdown at a random point: every call gets an outcome, the threads
    end, nothing starts afterwards."""
    rng = case.rng
    size = rng.choice([1, 2, 3, 4, 8])
    n = rng.randint(0, 30)
    kind = rng.choice(["asyncio", "uvloop"])
    wait = rng.random() < 0.7
    foreign = rng.random() < 0.4
    debug = rng.random() < 0.4
    twice = rng.random() < 0.3
    case.describe(pool=size, calls=n, loop=kind, wait=wait, foreign=foreign)
    case.trace(size, n, kind, wait, foreign, debug)
    before = set(threading.enumerate())
    log = Log()

    def work(i, d):
        log("start", i)
        time.sleep(d)
        log("end", i)
        return i

    async def main():
        pool = ThreadPoolExecutor(size)
        loop = asyncio.get_running_loop()
        futs = {}
        for i in range(n):
            futs[i] = pool.submit(
                work, i, rng.choice([0, 0, 0.001, 0.005]),
            )
            r = rng.random()
            if r < 0.2:
                await asyncio.sleep(0)
            elif r < 0.3:
                await asyncio.sleep(0.002)
            if rng.random() < 0.1:
                rng.choice(list(futs.values())).cancel()

        def down():
            pool.shutdown(wait=wait)
            log("down")
            if twice:
                pool.shutdown(wait=wait)
        if foreign:
            th = threading.Thread(target=down)
            th.start()
            # submits racing with the shutdown
            i = n
            while th.is_alive() and i < n + 50:
                try:
                    futs[i] = pool.submit(work, i, 0)
                except RuntimeError:
                    case.event("submit_rejected")
                    futs.pop(i, None)
                    break
                i += 1
                await asyncio.sleep(rng.choice([0, 0, 0.001]))
            await loop.run_in_executor(None, th.join)
        else:
            down()
        try:
            pool.submit(work, -1, 0)
        except RuntimeError:
            case.event("submit_rejected")
        else:
            case.fail("submit-after-shutdown", "accepted")
        if futs:
            done, pending = await asyncio.wait(
                futs.values(), timeout=25,
            )
            case.check(not pending, "unresolved",
                       f"{len(pending)} calls have no outcome after shutdown")
        for i, f in futs.items():
            out = outcome_of(f)
            case.event("outcome_" + out[0])
            if out[0] == "ok":
                case.check(out[1] == i and log.count("end", i) == 1,
                           "wrong-result", str(i), got=out[1])
            elif out[0] == "exc":
                case.check(isinstance(out[1], RuntimeError), "wrong-error",
                           str(i), got=out[1])
            case.check(log.count("start", i) <= 1, "executed-twice", str(i))

    with maybe_inject(case, tp_mod, rate=0.01) as inj:
        run_real(main, kind=kind, debug=debug)
        case.event("preemptions", inj.delays)
    ok = eventually_sync(
        lambda: not [
            t for t in pool_threads(before)
            if "asyncio" not in t.name and t.name.startswith("Thread ")
        ], 20,
    )
    case.check(ok, "threads-leaked", str(pool_threads(before)))
    case.check(log.count("start", -1) == 0, "submit-after-shutdown", "ran")
    if wait:
        events = [e[0] for e in log.events]
        if "down" in events:
            late = events[events.index("down"):].count("start")
            case.check(late == 0, "late-start",
                       "a call started after shutdown(wait=True) returned")
    case.trace(*[e[:2] for e in log.events])


def cancelled_then_shutdown(case):
    """Callers waiting through other tasks are resolved by the shutdown."""
    rng = case.rng
    size = rng.choice([1, 2, 4])
    queued = rng.randint(0, 10)
    case.trace(size, queued)
    gate = threading.Event()
    case.defer(gate.set)

    async def main():
        pool = ThreadPoolExecutor(size)
        case.defer(pool.shutdown, False)
        blockers = [
            asyncio.ensure_future(run_in_executor(gate.wait, pool, (30,)))
            for _ in range(size)
        ]

        async def caller(i):
            return await run_in_executor(lambda: i, pool)
        tasks = [asyncio.ensure_future(caller(i)) for i in range(queued)]
        await asyncio.sleep(rng.choice([0, 0.01]))
        if tasks and rng.random() < 0.5:
            rng.choice(tasks).cancel()
        pool.shutdown(wait=False)
        # even though the running calls are still blocked
        done, pending = await asyncio.wait(blockers + tasks, timeout=25)
        case.check(not pending, "unresolved",
                   "a caller still waits after shutdown", n=len(pending))
        for t in done:
            out = outcome_of(t)
            case.event("outcome_" + out[0])
            case.check(
                out[0] == "cancelled" or
                out[0] == "exc" and isinstance(out[1], RuntimeError) or
                out[0] == "ok" and t in tasks, "wrong-outcome", str(out),
            )
        gate.set()
    with maybe_inject(case, tp_mod, rate=0.01):
        run_real(main, kind=rng.choice(["asyncio", "uvloop"]))


def shared_loops(case):
    """A pool outlives the event loops which use it: closing one of them with
    running and queued calls takes nothing away from the others."""
    rng = case.rng
    size = rng.choice([1, 1, 2, 3, 5])
    kinds = [rng.choice(["asyncio", "uvloop"]) for _ in range(2)]
    running = rng.randint(0, size)
    queued = rng.randint(0, 4)
    raising = rng.random() < 0.3
    use_submit = rng.random() < 0.5
    before_close = rng.random() < 0.3
    case.describe(pool=size, loops=kinds, running=running, queued=queued)
    case.trace(size, *kinds, running, queued, raising, use_submit,
               before_close)
    before = set(threading.enumerate())
    pool = ThreadPoolExecutor(size)
    case.defer(pool.shutdown, False)
    gates = [threading.Event() for _ in range(running)]
    for g in gates:
        case.defer(g.set)
    started = [threading.Event() for _ in range(running)]

    def hold(i):
        started[i].set()
        gates[i].wait(30)
        if raising:
            raise ValueError(i)
        return i

    async def first():
        calls = []
        for i in range(running + queued):
            func, args = (hold, (i,)) if i < running else (int, (i,))
            if use_submit:
                calls.append(pool.submit(func, *args))
            else:
                calls.append(asyncio.ensure_future(
                    run_in_executor(func, pool, args)))
            while i < running and not started[i].is_set():
                await asyncio.sleep(0.001)
        case.event("loops_closed")
        if before_close:
            # the threads deliver while the loop is closing
            for g in gates:
                threading.Timer(rng.choice([0, 0.001, 0.003]), g.set).start()

    async def second():
        barrier = threading.Barrier(size)

        def wait(i):
            barrier.wait(25)
            return i
        for _ in range(2):
            futs = [
                asyncio.ensure_future(run_in_executor(wait, pool, (i,)))
                for i in range(size)
            ]
            done, pending = await asyncio.wait(futs, timeout=30)
            case.check(not pending, "never-run", "calls of another event "
                       "loop are never run", pending=len(pending))
            res = await asyncio.gather(*futs, return_exceptions=True)
            case.check(res == list(range(size)), "not-simultaneous",
                       str(res))
            case.event("barriers")

    with maybe_inject(case, tp_mod, rate=0.01) as inj:
        th = threading.Thread(
            target=run_real, args=(first,), kwargs={"kind": kinds[0]},
        )
        th.start()
        th.join()
        for g in gates:
            g.set()
        if rng.random() < 0.5:
            time.sleep(rng.choice([0.001, 0.01]))
        run_real(second, kind=kinds[1])
        case.event("preemptions", inj.delays)
    pool.shutdown()
    ok = eventually_sync(
        lambda: not [t for t in pool_threads(before)
                     if t.name.startswith("Thread ")
                     and "asyncio" not in t.name], 20,
    )
    case.check(ok, "threads-leaked", str(pool_threads(before)))


QUICK_SCALE = 3
SCENARIOS = [
    Scenario(simultaneous, 220, timeout=90),
    Scenario(bounded, 220, timeout=90),
    Scenario(shutdown, 500, timeout=90),
    Scenario(shared_loops, 150, timeout=90),
    Scenario(cancelled_then_shutdown, 120, timeout=90),
]
