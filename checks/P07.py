from checks.agg import Run, judge_batches, judge_outcomes
from vf.core import Scenario

RULE = (
    "aggregated calls at random virtual times; without cancellations the "
    "batches and their start times are compared to an exact model, with "
    "cancellations the bounds are checked; distinct by plan and batches"
)


def model(run):
    """[(start, values)] the executions that must happen."""
    out = []
    batch, first = [], None
    for i, t in enumerate(run.calls):
        if batch and t > first + run.leeway:
            out.append((first + run.leeway, batch))
            batch, first = [], None
        if not batch:
            first = t
        batch.append(i)
        if len(batch) == run.max_count:
            out.append((t, batch))
            batch = []
    if batch:
        out.append((first + run.leeway, batch))
    return out


def exact(case):
    run = Run(case, cancels=False).go()
    judge_outcomes(run)
    judge_batches(run)
    want = model(run)
    got = [(t, v) for t, v, _ in run.execs]
    case.check(
        sorted(map(repr, got)) == sorted(map(repr, want)), "batches",
        "the executions differ from the model", got=got, want=want,
        **case.sample,
    )
    for k, (_, values, _) in enumerate(run.execs):
        for i in values:
            case.check(
                run.done_at[i] == run.ended_at[k], "late-outcome",
                f"caller {i} got its outcome at {run.done_at[i]}, the "
                f"execution ended at {run.ended_at[k]}",
            )
    case.trace(*[len(v) for _, v in got])
    case.event("full_batches",
               sum(len(v) == run.max_count for _, v in got))
    case.event("timed_batches",
               sum(len(v) != run.max_count for _, v in got))


def bounds(case):
    run = Run(case, cancels=True).go()
    judge_outcomes(run)
    judge_batches(run)
    for t, values, _ in run.execs:
        case.check(
            run.max_count is None or len(values) <= run.max_count,
            "max-count", f"{len(values)} arguments", limit=run.max_count,
        )
    for i in range(run.n):
        if i in run.cancelled_at:
            continue
        # the leeway counts from the first call of the batch; a batch older
        # than that (its first caller was cancelled) executes at once
        first, values = min(
            ((t, values) for t, values, _ in run.execs if i in values),
            key=lambda e: e[0],
        )
        opened = min(run.called_at[v] for v in values)
        limit = max(run.called_at[i], opened + run.leeway)
        case.check(
            first <= limit + 1e-6, "leeway",
            f"caller {i} waited {first - run.called_at[i]} in a batch opened "
            f"{run.called_at[i] - opened} before",
            leeway=run.leeway,
        )
    case.trace(*[tuple(v) for _, v, _ in run.execs])


QUICK_SCALE = 6
SCENARIOS = [
    Scenario(exact, 3000),
    Scenario(bounds, 1500),
]
