import asyncio
import os
import signal
from multiprocessing import ProcessError

from aiomisc import WorkerPool

from checks import wp
from vf import wfuncs
from vf.core import Scenario

RULE = (
    "worker pools whose workers are killed from outside, exit or crash in "
    "the middle of calls, and pools closed at random moments with calls "
    "running, queued, being submitted and cancelled; distinct by plan and "
    "outcomes"
)


def dying(case):
    rng = case.rng
    workers = rng.choice([1, 2, 4])
    n = rng.choice([8, 25, 60])
    plan = [(
        rng.choice(["echo"] * 8 + ["raise", "exit", "exit0", "os_exit",
                                   "interrupt", "kill", "term"]),
        rng.choice([0, 0, 0.01, 0.03]),
    ) for _ in range(n)]
    kills = rng.choice([0, 1, 3])
    sig = rng.choice([signal.SIGKILL, signal.SIGTERM])
    case.trace(workers, kills, int(sig), *plan)
    case.describe(workers=workers, kills=kills, plan=plan[:12])
    path = case.tmp() + "/log"

    async def main():
        async with WorkerPool(workers) as pool:
            await wp.full_strength(case, pool, path)
            killed = []
            errors = []

            async def one(i):
                kind, sleep = plan[i]
                await asyncio.sleep(rng.random() * 0.2)
                data = rng.choice([0, 1, 3])
                out = await wp.outcome(pool.create_task(
                    wfuncs.work, path, i, kind, data, sleep=sleep))
                if kind not in wp.FATAL and out[0] == "exc" and \
                        isinstance(out[1], ProcessError):
                    errors.append(i)
                    return
                wp.judge(case, path, i, kind, data, {}, out)

            async def killer():
                for _ in range(kills):
                    await asyncio.sleep(rng.random() * 0.1)
                    pids = sorted(pool.pids)
                    if pids:
                        pid = rng.choice(pids)
                        killed.append(pid)
                        try:
                            os.kill(pid, sig)
                        except ProcessLookupError:
                            pass
            await asyncio.wait_for(
                asyncio.gather(killer(), *[one(i) for i in range(n)]), 100)
            deaths = len(killed) + sum(
                1 for k, _ in plan if k in wp.FATAL)
            # every death takes at most the call it was executing, or the
            # next one when it was idle
            case.check(len(errors) <= deaths, "too-many-errors",
                       f"{len(errors)} calls failed because of {deaths} "
                       f"deaths", plan=case.sample)
            await wp.full_strength(case, pool, path + ".2")
            ok = await wp.eventually(
                lambda: len(pool.pids) == workers, 20)
            case.check_soft(ok, "pids", f"{pool.pids}")
            log = wp.marks(path)
            for i in range(n):
                c = sum(1 for m in log if m[:2] == ("begin", str(i)))
                case.check(c <= 1, "executed-twice", f"{i}",
                           plan=case.sample)
                if i not in errors and plan[i][0] not in wp.FATAL:
                    case.check(c == 1, "execution-count", f"{i}",
                               plan=case.sample)
            pids = set(pool.pids)
            case.event("deaths", deaths)
            case.event("calls", n)
            case.trace(len(errors))
        await wp.gone(case, pids, "after the close")
    wp.run(case, main, rng.choice(["asyncio", "uvloop"]))


def closing(case):
    rng = case.rng
    workers = rng.choice([1, 2, 4])
    overflow = rng.choice([0, 0, 2])
    n = rng.choice([3, 12, 40])
    plan = [(rng.choice([0, 0.01, 0.05, 60]), rng.random() * 0.1)
            for _ in range(n)]
    early = rng.random() < 0.25
    when = 0 if early else rng.random() * 0.15
    twice = rng.random() < 0.5
    cancel_close = rng.random() < 0.3
    case.trace(workers, overflow, n, early, twice, cancel_close, *plan)
    case.describe(workers=workers, overflow=overflow, plan=plan[:12],
                  close_at=when)
    path = case.tmp() + "/log"

    async def main():
        pool = WorkerPool(workers, overflow)
        before = set(kids(os.getpid()))
        await pool.start()
        started = set(kids(os.getpid())) - before
        if not early:
            await wp.full_strength(case, pool, path)
        outs = {}

        async def one(i):
            sleep, delay = plan[i]
            await asyncio.sleep(delay)
            outs[i] = await wp.outcome(pool.create_task(
                wfuncs.work, path, i, "echo", i, sleep=sleep))
        tasks = [asyncio.ensure_future(one(i)) for i in range(n)]
        await asyncio.sleep(when)
        pids = set(pool.pids)
        closers = [asyncio.ensure_future(pool.close())
                   for _ in range(2 if twice else 1)]
        if cancel_close:
            await asyncio.sleep(0.001)
            closers[0].cancel()
        done, rest = await asyncio.wait(closers, timeout=30)
        case.check_soft(not rest, "close-hangs", "", plan=case.sample)
        for c in done:
            if not c.cancelled():
                c.result()
        done, rest = await asyncio.wait(tasks, timeout=30)
        case.check_soft(not rest, "call-hangs",
                        f"{len(rest)} calls never ended", plan=case.sample)
        for t in tasks:
            t.result()
        for i, out in outs.items():
            if out[0] == "ok":
                case.check(out[1][:3] == (i, i, {}), "wrong-result",
                           f"{out}")
            elif out[0] == "exc":
                case.check(isinstance(out[1], (RuntimeError, ProcessError)),
                           "wrong-error", f"{out}", plan=case.sample)
        case.event("calls_closed",
                   sum(1 for o in outs.values() if o[0] != "ok"))
        for _ in range(2):
            out = await wp.outcome(asyncio.wait_for(
                pool.create_task(wfuncs.getpid), 20))
            case.check(out[0] == "exc" and isinstance(out[1], RuntimeError),
                       "submitted-after-close", f"{out}")
        await pool.close()
        await wp.gone(case, pids, "after the close")
        ok = await wp.eventually(
            lambda: not any(wp.alive(p) for p in started), 20)
        case.check_soft(ok, "supervisor-leaked", f"{started}")
        # no worker has been left behind
        await asyncio.sleep(0.05)
        children = [k for p in started for k in kids(p)]
        case.check_soft(not children, "process-leaked", f"{children}")
        log = wp.marks(path)
        await asyncio.sleep(0.1)
        late = [m for m in wp.marks(path)[len(log):] if m[0] == "begin"]
        case.check(not late, "executed-after-close", f"{late}")
        case.trace(sorted((i, o[0]) for i, o in outs.items()))
    wp.run(case, main, rng.choice(["asyncio", "uvloop"]))


def kids(ppid):
    out = []
    for name in os.listdir("/proc"):
        if name.isdigit():
            try:
                with open(f"/proc/{name}/stat") as f:
                    fields = f.read().rsplit(")", 1)[1].split()
            except OSError:
                continue
            if int(fields[1]) == ppid:
                out.append(int(name))
    return out


SCENARIOS = [
    Scenario(dying, 70, 900, timeout=150),
    Scenario(closing, 90, 1200, timeout=150),
]
