import asyncio

from checks.poolmon import GRID, Run
from vf.core import Scenario

RULE = (
    "clients acquiring instances of a PoolBase at random virtual times with "
    "random hold times, body errors and cancellations (any time plus k loop "
    "iterations), creations, checks and destructions of random durations "
    "and failures, recycling; distinct by plan"
)


def exclusive(case):
    run = Run(case, cancels=case.rng.random() < 0.7,
              failures=case.rng.random() < 0.7)

    async def main():
        run.build()
        await run.workload(probe=False)
        await run.close()
        for inst in run.insts:
            case.check(inst.destroyed == 1, "not-destroyed",
                       f"{inst} destroyed {inst.destroyed} times",
                       plan=case.sample)
    run.go(main)


def recycling(case):
    """An instance older than twice the recycle period is not reused after
    its release; one younger than the period is kept."""
    rng = case.rng
    run = Run(case, cancels=False, failures=False)
    run.recycle = rng.choice([1, 2, 5, 10])
    run.durs = [0]
    uses = {}
    holds = [rng.choice([0.125, 0.5, 1, 3, 12, 25]) for _ in range(12)]
    gaps = [rng.choice([0, 0.125, 0.5, 2, 11, 30]) for _ in range(12)]
    case.trace(run.recycle, *holds, *gaps)
    case.describe(recycle=run.recycle, holds=holds, gaps=gaps)

    async def main():
        pool = run.build()
        loop = asyncio.get_running_loop()

        async def worker():
            for hold, gap in zip(holds, gaps):
                async with pool.acquire() as inst:
                    aged = uses.get(inst)
                    if aged is not None:
                        case.check(
                            aged <= 2 * run.recycle, "not-recycled",
                            f"{inst} reused though released at age {aged}",
                            plan=case.sample)
                        case.event("reused")
                    await asyncio.sleep(hold)
                    uses[inst] = loop.time() - inst.created
                await asyncio.sleep(GRID / 16)
                if uses[inst] > 2 * run.recycle:
                    case.check(inst.destroyed, "not-recycled",
                               f"{inst} was released at age {uses[inst]}",
                               plan=case.sample)
                    case.event("recycled")
                if uses[inst] < run.recycle:
                    case.check(not inst.destroyed, "destroyed-early",
                               f"{inst} aged {uses[inst]}",
                               plan=case.sample)
                await asyncio.sleep(gap)
        await asyncio.gather(*[worker() for _ in range(run.maxsize)])
        await run.close()
        for inst in run.insts:
            case.check(inst.destroyed == 1, "not-destroyed", repr(inst),
                       plan=case.sample)
    run.go(main)


def parameters(case):
    run = Run(case)

    async def main():
        for bad in (0, -1, -0.5):
            run.recycle = bad
            try:
                run.build()
            except AssertionError:
                case.event("rejected")
            else:
                case.fail("accepted-bad-recycle", str(bad))
        run.recycle = None
        await run.build().close()
    case.trace(case.rng.random())
    run.go(main)


QUICK_SCALE = 2
SCENARIOS = [
    Scenario(exclusive, 8000),
    Scenario(recycling, 1000),
    Scenario(parameters, 3),
]
