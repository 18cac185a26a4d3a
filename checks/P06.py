from checks.agg import Run, judge_batches, judge_outcomes
from vf.core import Scenario

RULE = (
    "aggregated calls at random virtual times with random max_count, leeway, "
    "function duration and behaviour (results, missing results, errors, "
    "individual errors), callers cancelled at a random virtual time plus k "
    "loop iterations; distinct by plan and by the executed batches"
)


def outcomes(case):
    run = Run(case, cancels=case.rng.random() < 0.7).go()
    judge_outcomes(run)
    batches = judge_batches(run)
    case.trace(*batches.items())
    case.event("cancelled", len(run.cancelled_at))


def executor_cancelled(case):
    """Whoever executes the batch is cancelled: another caller finishes the
    job, and each of the remaining callers gets its result."""
    rng = case.rng
    run = Run(case, cancels=False)
    run.max_count = rng.choice([2, 3, 5])
    run.n = run.max_count
    run.calls = [0] * run.n
    run.leeway = 1 / 16
    run.behaviours = ["ok"] * 100
    run.durations = [rng.choice([1, 2, 5]) / 8 for _ in range(100)]
    victims = rng.sample(range(run.n), rng.randint(1, run.n - 1))
    # waves: whoever executes now is among the victims with some luck
    for v in victims:
        run.cancel_at[v] = (
            rng.choice([1, 2, 3, 4, 8]) / 16, rng.randint(0, 4),
        )
    run.go()
    judge_outcomes(run)
    judge_batches(run)
    for i in range(run.n):
        if i not in run.cancelled_at:
            case.check(run.outcomes[i][0] == "ok", "isolation",
                       f"caller {i}: {run.outcomes[i]}")
    case.trace(run.max_count, *sorted(run.cancel_at.items()))
    case.event("cancelled", len(run.cancelled_at))


QUICK_SCALE = 6
SCENARIOS = [
    Scenario(outcomes, 3000),
    Scenario(executor_cancelled, 1000),
]
