import asyncio

from checks.poolmon import GRID, Run
from vf.core import Scenario
from vf.vloop import steps

RULE = (
    "as P13; at every quiet instant nobody waits while capacity is unused, "
    "all the capacity is available after the workload, and closing destroys "
    "everything once, in time; distinct by plan"
)


def progress(case):
    run = Run(case, cancels=case.rng.random() < 0.8)

    async def main():
        pool = run.build()
        await run.workload()
        await run.full()
        await asyncio.sleep(100)
        case.check(
            len(pool) == sum(1 for i in run.insts if not i.discarded),
            "wrong-len", f"{len(pool)}", plan=case.sample)
        for inst in run.insts:
            case.check(bool(inst.destroyed) == inst.discarded,
                       "not-destroyed", f"discarded {inst}",
                       plan=case.sample)
        await finish()

    async def finish():
        before = asyncio.all_tasks()
        run.destroy_dur = GRID
        took, timed = await run.close()
        case.check(not timed and took <= GRID, "close-time", f"{took}")
        for inst in run.insts:
            case.check(inst.destroyed == 1, "not-destroyed",
                       f"{inst} destroyed {inst.destroyed} times",
                       plan=case.sample)
        await steps(3)
        left = asyncio.all_tasks() - {asyncio.current_task()}
        case.check(not left, "leaked-tasks", f"{len(left)} {len(before)}",
                   plan=case.sample)
    run.go(main)


def closing(case):
    """Closing with instances in use, recycled ones being destroyed, idle
    ones; with or without a timeout."""
    rng = case.rng
    run = Run(case, cancels=False)
    run.destroy_dur_plan = rng.choice([0, 1, 4])
    timeout = rng.choice([None, None, 2, 20])
    when = rng.choice([0, 1, 3, 9, 17]) + 0.25
    hold = rng.choice([1, 2, 4, 30])
    holders = rng.randint(0, run.maxsize)
    case.trace(timeout, when, hold, holders, run.destroy_dur_plan)
    case.describe(timeout=timeout, when=when, hold=hold, holders=holders,
                  destroy=run.destroy_dur_plan)

    async def main():
        pool = run.build()
        await run.workload()
        await run.full()
        run.calm = True
        tasks = [
            asyncio.ensure_future(run.client(f"h{i}", hold, "ok"))
            for i in range(holders)
        ]
        await asyncio.sleep(when)
        # the recycler may be late: it destroys one after another
        run.destroy_dur = run.destroy_dur_plan
        waiting = bool(run.waiting)
        destroying = any(i.destroying for i in run.insts)
        queued = [i for i in run.insts if i.discarded and not i.destroyed]
        if waiting:
            case.trivial()
            return
        run.destroy_cleanup = rng.choice([0, 0, 1])
        took, timed = await run.close(timeout)
        del pool
        limit = run.destroy_dur
        if timed:
            case.check(timeout is not None and
                       timeout <= took <= timeout + 2 * run.destroy_cleanup,
                       "close-time", f"{took}", plan=case.sample)
            case.check(timeout <= limit or destroying or queued,
                       "close-timeout", "the close did not have to time out",
                       plan=case.sample)
            case.event("timed_out")
        elif timeout is not None:
            case.check(took <= timeout, "close-time", f"{took}")
        if not timed:
            for inst in run.insts:
                case.check(inst.destroyed == 1, "not-destroyed",
                           f"{inst} destroyed {inst.destroyed} times",
                           plan=case.sample)
            if not queued and not destroying:
                case.check(took <= limit, "close-time",
                           f"{took} > {limit}", plan=case.sample)
        await asyncio.sleep(100)
        for t in tasks:
            case.check(t.done(), "release-hangs", "after the close",
                       plan=case.sample)
            t.result()
        for inst in run.insts:
            case.check(inst.destroyed <= 1, "destroyed-twice", repr(inst))
        await steps(3)
        left = asyncio.all_tasks() - {asyncio.current_task()}
        case.check(not left, "leaked-tasks", f"{len(left)}",
                   plan=case.sample)
    run.go(main)


QUICK_SCALE = 2
SCENARIOS = [
    Scenario(progress, 8000),
    Scenario(closing, 3000),
]
