import asyncio
import threading
import time

import aiomisc.thread_pool as tp_mod
from aiomisc.thread_pool import ThreadPoolExecutor, run_in_executor

from vf.core import Scenario
from vf.inject import maybe_inject
from vf.util import (
    VAR, BaseBoom, Boom, Log, Token, eventually, outcome_of,
)
from vf.vloop import run_real

RULE = (
    "random storms of callables on a thread pool (sizes, sleeps, errors, "
    "cancellations, one or two event loops, asyncio/uvloop, debug mode) with "
    "preemption injected between the lines of the pool; a case is distinct by "
    "its plan and the observed execution order"
)


class FalsyBoom(Boom):
    def __bool__(self):
        return False


def make_func(log, plan, loop_thread):
    key, token, kind, dur = plan

    def func(*args, **kwargs):
        log("start", key, threading.get_ident(), VAR.get(), args, kwargs)
        if dur:
            time.sleep(dur)
        log("end", key)
        if kind == "ok":
            return token
        if kind == "none":
            return None
        if kind == "falsy":
            raise FalsyBoom(key)
        if kind == "stop":
            raise StopIteration(key)
        if kind == "base":
            raise BaseBoom(key)
        if kind == "cancelled":
            raise asyncio.CancelledError(key)
        raise Boom(key)
    return func


async def storm(case, rng, pool, log, prefix, n, results):
    """Submits n callables, cancelling some; records what each caller got."""
    me = threading.get_ident()
    loop = asyncio.get_running_loop()
    tasks = {}
    via = rng.choice(["submit", "executor", "mixed"])

    async def caller(i, plan):
        key = plan[0]
        VAR.set(key)
        args = (i, key)
        kwargs = {"k": i} if rng.random() < 0.5 else {}
        func = make_func(log, plan, me)
        if via == "submit" or (via == "mixed" and i % 2):
            fut = pool.submit(func, *args, **kwargs)
        else:
            fut = run_in_executor(
                func, executor=pool, args=args, kwargs=kwargs,
            )
        log("submitted", key, args, kwargs)
        try:
            return await fut
        finally:
            log("caller-done", key, threading.get_ident())

    for i in range(n):
        key = f"{prefix}{i}"
        kind = rng.choice(
            ["ok"] * 6 + ["none", "exc", "exc", "falsy", "base", "stop",
                          "cancelled"],
        )
        dur = rng.choice([0, 0, 0, 0.0005, 0.002, 0.01])
        plan = (key, Token(key), kind, dur)
        tasks[key] = (loop.create_task(caller(i, plan)), plan)
        case.trace(kind, dur)
        r = rng.random()
        if r < 0.3:
            await asyncio.sleep(0)
        elif r < 0.4:
            await asyncio.sleep(rng.random() * 0.003)
        if rng.random() < 0.2:
            victim = rng.choice(list(tasks))
            if not tasks[victim][0].done():
                tasks[victim][0].cancel()
                log("cancel", victim)
                case.event("cancellations")
    await asyncio.wait([t for t, _ in tasks.values()])
    for key, (task, plan) in tasks.items():
        results[key] = (outcome_of(task), plan, me)


def judge(case, log, results):
    starts = {}
    for e in log.of("start"):
        starts.setdefault(e[1], []).append(e)
    ends = {e[1] for e in log.of("end")}
    submitted = {e[1]: e for e in log.of("submitted")}
    cancelled = {e[1] for e in log.of("cancel")}
    for e in log.of("caller-done"):
        case.check(e[2] == results[e[1]][2], "foreign-loop-thread",
                   "the caller was resumed outside of its loop's thread")
    for key, (out, plan, me) in results.items():
        _, token, kind, _ = plan
        runs = starts.get(key, [])
        case.check(len(runs) <= 1, "executed-twice", key, runs=len(runs))
        for r in runs:
            case.check(r[2] != me, "ran-in-loop-thread", key)
            case.check(r[3] == key, "context", key, got=r[3])
            case.check((r[4], r[5]) == submitted[key][2:], "arguments",
                       key, got=r[4:])
        case.event("outcome_" + out[0])
        if key not in cancelled:
            case.check(len(runs) == 1, "not-executed", key, out=out)
        if out[0] == "cancelled":
            case.check(key in cancelled or kind == "cancelled",
                       "spurious-cancel", key)
        elif out[0] == "ok":
            case.check(key in ends, "result-before-end", key)
            want = {"ok": token, "none": None}.get(kind, "raise")
            case.check(out[1] is want, "wrong-result", key, kind=kind,
                       got=out[1])
        else:
            exc = out[1]
            case.check(key in ends, "result-before-end", key)
            if kind == "stop":
                # a future can not hold it: RuntimeError caused by it
                good = isinstance(exc, (StopIteration, RuntimeError))
            else:
                good = (
                    kind in ("exc", "falsy", "base") and
                    isinstance(exc, (Boom, BaseBoom)) and exc.token == key
                )
            case.check(good, "wrong-exception", key, kind=kind, got=exc)
    case.event("executions", len(starts))
    case.trace(*[e[1] for e in log.of("start")])


def one_loop(case):
    rng = case.rng
    size = rng.choice([1, 1, 2, 3, 4, 8])
    n = rng.randint(3, 40)
    kind = rng.choice(["asyncio", "uvloop"])
    debug = rng.random() < 0.3
    case.trace(size, n, kind, debug)
    case.describe(pool=size, calls=n, loop=kind, debug=debug)
    pool = ThreadPoolExecutor(size)
    case.defer(pool.shutdown, False)
    log, results = Log(), {}

    async def main():
        await storm(case, rng, pool, log, "a", n, results)

    with maybe_inject(case, tp_mod) as inj:
        run_real(main, kind=kind, debug=debug)
        case.event("preemptions", inj.delays)
    pool.shutdown()
    judge(case, log, results)


def two_loops(case):
    """One pool shared by several loops: each gets its own outcomes."""
    rng = case.rng
    size = rng.choice([1, 2, 4])
    loops = rng.choice([2, 2, 3])
    pool = ThreadPoolExecutor(size)
    case.defer(pool.shutdown, False)
    log, results = Log(), {}
    errors = []
    case.describe(pool=size, loops=loops)
    import random

    def runner(prefix, seed, kind, n):
        r = random.Random(seed)
        try:
            run_real(storm, case, r, pool, log, prefix, n, results,
                     kind=kind)
        except BaseException as e:
            errors.append(e)

    with maybe_inject(case, tp_mod) as inj:
        threads = [
            threading.Thread(target=runner, args=(
                f"{chr(97 + i)}", rng.random(),
                rng.choice(["asyncio", "uvloop"]), rng.randint(3, 20),
            )) for i in range(loops)
        ]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        case.event("preemptions", inj.delays)
    pool.shutdown()
    if errors:
        raise errors[0]
    judge(case, log, results)


def cancel_queued(case):
    """A call cancelled while it is still queued is never executed, and the
    calls queued behind it are not affected."""
    rng = case.rng
    size = rng.choice([1, 2, 4])
    queued = rng.randint(2, 12)
    kind = rng.choice(["asyncio", "uvloop"])
    case.trace(size, queued, kind)
    pool = ThreadPoolExecutor(size)
    case.defer(pool.shutdown, False)
    gate = threading.Event()
    case.defer(gate.set)
    log = Log()

    def blocker():
        log("block")
        gate.wait(30)

    def victim(i):
        log("ran", i)
        return i

    async def main():
        blockers = [
            asyncio.ensure_future(
                run_in_executor(blocker, executor=pool),
            ) for _ in range(size)
        ]
        ok = await eventually(lambda: log.count("block") == size, 20)
        case.check_soft(ok, "no-workers", "blocking calls do not run",
                        size=size)
        victims = []
        for i in range(queued):
            if rng.random() < 0.5:
                f = pool.submit(victim, i)
            else:
                f = run_in_executor(victim, pool, (i,))
            victims.append(f)
        gone = [i for i in range(queued) if rng.random() < 0.5]
        case.trace(*gone)
        for i in gone:
            victims[i].cancel()
        case.event("queued_cancelled", len(gone))
        for _ in range(rng.randint(0, 3)):
            await asyncio.sleep(0)
        gate.set()
        await asyncio.wait(blockers)
        res = await asyncio.gather(*victims, return_exceptions=True)
        for i, r in enumerate(res):
            if i in gone:
                case.check(isinstance(r, asyncio.CancelledError),
                           "cancelled-outcome", str(i), got=r)
            else:
                case.check(r == i, "wrong-result", str(i), got=r)
        # everything queued before this one has been taken
        await run_in_executor(victim, pool, ("last",))
    with maybe_inject(case, tp_mod) as inj:
        run_real(main, kind=kind)
        case.event("preemptions", inj.delays)
        pool.shutdown()
    ran = [e[1] for e in log.of("ran")]
    case.check(len(ran) == len(set(ran)), "executed-twice", str(ran))
    case.trace(*ran)
    case.event("executions", len(ran))


def cancelled_never_runs(case):
    rng = case.rng
    size = rng.choice([1, 2, 3])
    pool = ThreadPoolExecutor(size)
    case.defer(pool.shutdown, False)
    gate = threading.Event()
    case.defer(gate.set)
    log = Log()
    n = rng.randint(1, 10)
    case.trace(size, n)

    def blocker():
        log("block")
        gate.wait(30)

    async def main():
        bl = [pool.submit(blocker) for _ in range(size)]
        ok = await eventually(lambda: log.count("block") == size, 20)
        case.check_soft(ok, "no-workers", "", size=size)
        futs = [pool.submit(log, "ran", i) for i in range(n)]
        for f in futs:
            f.cancel()
        await asyncio.sleep(0)
        gate.set()
        await asyncio.wait(bl)
        await asyncio.wait([pool.submit(log, "last", i)
                            for i in range(size)])
    with maybe_inject(case, tp_mod):
        run_real(main, kind=rng.choice(["asyncio", "uvloop"]))
        pool.shutdown()
    case.event("queued_cancelled", n)
    case.check(log.count("ran") == 0, "cancelled-executed",
               "a call cancelled while queued has been executed",
               ran=log.of("ran"))
    case.check(log.count("last") == size, "not-executed", "")


QUICK_SCALE = 2
SCENARIOS = [
    Scenario(one_loop, 900),
    Scenario(two_loops, 200),
    Scenario(cancel_queued, 200),
    Scenario(cancelled_never_runs, 200),
]
