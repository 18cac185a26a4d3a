import asyncio

from aiomisc import WorkerPool

from checks import wp
from vf import wfuncs
from vf.core import Scenario

RULE = (
    "worker pools of random sizes, kinds of initializers and overflow "
    "limits, executing bursts of functions with random arguments, results "
    "(up to MBs, also unpicklable ones) and errors; every execution is "
    "recorded by the worker itself; distinct by plan"
)
KINDS = ["echo"] * 6 + ["raise", "raise", "none", "big", "lambda",
                        "bad_result", "bad_error", "local_error",
                        "cancelled"]


def results(case):
    rng = case.rng
    workers = rng.choice([1, 2, 3, 5])
    overflow = rng.choice([0, 0, 1, 4])
    n = rng.choice([5, 30, 100])
    loop_kind = rng.choice(["asyncio", "uvloop"])
    use_init = rng.random() < 0.5
    plan = []
    for i in range(n):
        kind = rng.choice(KINDS)
        data = wp.value(rng, rng.choice([300000, 3000000]))
        if kind == "big":
            data = rng.choice([10, 65536, 200000, 5000000])
        kw = {"extra": wp.value(rng, 1000)} if rng.random() < 0.3 else {}
        plan.append((kind, data, kw, rng.choice([0, 0, 0, 0.01])))
    case.trace(workers, overflow, n, loop_kind, use_init,
               *[p[0] for p in plan])
    case.describe(workers=workers, overflow=overflow, n=n,
                  kinds=[p[0] for p in plan[:12]])
    path = case.tmp() + "/log"

    async def main():
        kwargs = {}
        if use_init:
            kwargs = dict(initializer=wfuncs.initializer,
                          initializer_args=(path, 1, "a"),
                          initializer_kwargs={"k": [1]})
        pids = set()
        async with WorkerPool(workers, overflow, **kwargs) as pool:
            async def one(i):
                kind, data, kw, sleep = plan[i]
                out = await wp.outcome(pool.create_task(
                    wfuncs.work, path, i, kind, data, sleep=sleep, **kw))
                wp.judge(case, path, i, kind, data, kw, out, pids)
            await asyncio.gather(*[one(i) for i in range(n)])
            # an argument which can not be pickled fails only its own call
            out = await wp.outcome(pool.create_task(lambda: 1))
            case.check(out[0] == "exc", "unpicklable", f"{out}")
            await wp.full_strength(case, pool, path)
            if use_init:
                got = await pool.create_task(
                    wfuncs.work, path, "i", "init", None)
                case.check(got == [((1, "a"), {"k": [1]})], "initializer",
                           f"{got}")
            known = set(pool.pids)
            case.check(pids <= known, "unknown-pid", f"{pids} {known}")
        log = wp.marks(path)
        for i in range(n):
            for what in ("begin", "end"):
                c = sum(1 for m in log if m[:2] == (what, str(i)))
                case.check(c == 1, "execution-count",
                           f"call {i} {plan[i][0]}: {what} {c} times")
        case.check(len(pids) <= workers, "too-many-workers", f"{pids}")
        await wp.gone(case, known, "after the close")
        case.event("calls", n)
    wp.run(case, main, loop_kind)


def initializer_failure(case):
    """A failing initializer fails the waiting calls with its error."""
    rng = case.rng
    workers = rng.choice([1, 2, 4])
    n = rng.choice([1, 3, 10])
    kind = rng.choice(["plain", "plain", "local", "no_unpickle"])
    case.trace(workers, n, kind)
    case.describe(workers=workers, calls=n, kind=kind)

    async def main():
        pool = WorkerPool(workers, initializer=wfuncs.bad_init,
                          initializer_args=(kind,))
        async with pool:
            got = await asyncio.wait_for(asyncio.gather(*[
                wp.outcome(pool.create_task(wfuncs.getpid))
                for _ in range(n)
            ]), 40)
            for g in got:
                case.check(g[0] == "exc" and (
                    kind != "plain" or g[1] == wfuncs.WErr("init", 1)
                ) or g[0] == "cancelled", "initializer-error", f"{got}")
            case.check(any(g[0] == "exc" for g in got),
                       "initializer-error", f"{got}")
        case.event("failed_initializers")
    wp.run(case, main)


def cancellation(case):
    """Cancelled calls: a running function is interrupted, a queued one is
    never executed, all the others keep their outcomes, no worker is lost."""
    rng = case.rng
    workers = rng.choice([1, 2, 3])
    n = rng.choice([6, 15, 30])
    plan = [(
        rng.choice(["echo", "echo", "echo", "raise", "big"]),
        rng.choice([0, 0, 0.005, 0.03]),
        rng.choice([None, None, 0, 0.002, 0.01, 0.05]),
    ) for _ in range(n)]
    case.trace(workers, *plan)
    case.describe(workers=workers, plan=plan[:12])
    path = case.tmp() + "/log"

    async def main():
        async with WorkerPool(workers) as pool:
            await wp.full_strength(case, pool, path)
            before = set(pool.pids)
            cancelled = set()

            async def one(i):
                kind, sleep, cancel = plan[i]
                data = 100 if kind == "big" else i
                task = asyncio.ensure_future(pool.create_task(
                    wfuncs.work, path, i, kind, data, sleep=sleep))
                if cancel is not None:
                    await asyncio.sleep(cancel)
                    if not task.done():
                        task.cancel()
                        cancelled.add(i)
                        case.event("cancelled")
                out = await wp.outcome(task)
                if i in cancelled:
                    case.check(out[0] == "cancelled", "cancel-lost",
                               f"{out}")
                else:
                    wp.judge(case, path, i, kind, data, {}, out)
            await asyncio.gather(*[one(i) for i in range(n)])
            # a long function is interrupted
            task = asyncio.ensure_future(pool.create_task(
                wfuncs.work, path, "long", "echo", 0, sleep=60))
            await wp.eventually(lambda: any(
                m[1] == "long" for m in wp.marks(path)))
            task.cancel()
            await asyncio.wait([task])
            ok = await wp.eventually(lambda: any(
                m[:2] == ("end", "long") for m in wp.marks(path)), 20)
            case.check_soft(ok, "not-interrupted",
                            "a cancelled call is still running")
            await wp.full_strength(case, pool, path + ".2")
            case.check(set(pool.pids) == before, "worker-lost",
                       f"{before} {pool.pids}")
            log = wp.marks(path)
            for i in range(n):
                c = sum(1 for m in log if m[:2] == ("begin", str(i)))
                case.check(c <= 1, "executed-twice", f"{i}")
                if i not in cancelled:
                    case.check(c == 1, "execution-count", f"{i}")
    wp.run(case, main, rng.choice(["asyncio", "uvloop"]))


def interruption(case):
    """Calls cancelled at the delicate moments: just when they are sent, when
    the result is being sent back, and when the function cleans up. The
    function is interrupted once, and the worker goes on."""
    rng = case.rng
    workers = rng.choice([1, 2, 3])
    rounds = [[(
        rng.choice(["start", "start", "finish", "cleanup"]),
        rng.choice([0, 0, 0.0005, 0.001, 0.002, 0.005, 0.02]),
    ) for _ in range(rng.randint(1, workers))]
        for _ in range(rng.choice([1, 2, 3]))]
    case.trace(workers, *rounds)
    case.describe(workers=workers, rounds=rounds)
    path = case.tmp() + "/log"

    async def main():
        async with WorkerPool(workers) as pool:
            await wp.full_strength(case, pool, path + ".s")
            before = set(pool.pids)

            def seen(what, token):
                return any(m[:2] == (what, token) for m in wp.marks(path))

            async def one(token, mode, delay):
                if mode == "start":
                    call = pool.create_task(
                        wfuncs.work, path, token, "echo", 0, sleep=60)
                elif mode == "finish":
                    call = pool.create_task(
                        wfuncs.work, path, token, "big",
                        case.rng.choice([5, 20, 40]) << 20)
                else:
                    call = pool.create_task(
                        wfuncs.cleanup, path, token,
                        case.rng.choice([0.05, 0.35]))
                task = asyncio.ensure_future(call)
                if mode == "finish":
                    while not task.done() and not seen("end", token):
                        await asyncio.sleep(0.001)
                elif mode == "cleanup":
                    await wp.eventually(lambda: seen("begin", token))
                await asyncio.sleep(delay)
                task.cancel()
                out = await wp.outcome(task)
                case.event(f"{mode}_{out[0]}")
                case.check(
                    out[0] == "cancelled" or
                    mode == "finish" and out[0] == "ok", "cancel-lost",
                    f"{mode}: {out[0]}")
                if mode == "cleanup":
                    ok = await wp.eventually(
                        lambda: seen("clean", token), 20)
                    case.check_soft(ok, "interrupted-twice",
                                    "the cleanup was not finished")
            for r, calls in enumerate(rounds):
                await asyncio.gather(*[
                    one(f"{r}-{i}", *c) for i, c in enumerate(calls)])
                await wp.full_strength(case, pool, f"{path}.{r}", 25)
                case.check(set(pool.pids) == before, "worker-lost",
                           f"{before} {pool.pids}")
    wp.run(case, main, rng.choice(["asyncio", "uvloop"]))


SCENARIOS = [
    Scenario(results, 60, 900, timeout=150),
    Scenario(cancellation, 50, 900, timeout=150),
    Scenario(interruption, 40, 600, timeout=150),
    Scenario(initializer_failure, 12, 150, timeout=100),
]
