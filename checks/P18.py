import asyncio

import aiomisc

from vf.core import Scenario
from vf.util import Boom, Token, outcome_of
from vf.vloop import run_virtual, steps

RULE = (
    "select over random coroutines, tasks and futures with random end times, "
    "results, errors, cleanups and options, its caller cancelled or not at "
    "a random time plus k loop iterations; distinct by plan"
)
G = 1 / 8


class FalsyBoom(Boom):
    def __bool__(self):
        return False


def plan_one(rng, ties):
    dur = rng.choice([0, 1, 2, 3, 5, 8, None] if ties
                     else list(range(40)) + [None] * 3)
    return {
        "dur": None if dur is None else dur * G,
        "form": rng.choice(["coro", "coro", "task", "future"]),
        "end": rng.choice(["ok", "ok", "none", "falsy", "raise",
                           "raise_falsy", "exc_value"]),
        "cleanup": rng.choice([0, 0, 0, 3 * G, 7 * G]),
        "stubborn": rng.random() < 0.1,
    }


def select(case):
    rng = case.rng
    n = rng.choice([1, 2, 3, 5, 10])
    ties = rng.random() < 0.3
    ps = [plan_one(rng, ties) for _ in range(n)]
    opts = {}
    if rng.random() < 0.5:
        opts["return_exceptions"] = rng.random() < 0.5
    if rng.random() < 0.5:
        opts["cancel"] = rng.random() < 0.5
    if rng.random() < 0.4:
        opts["wait"] = rng.random() < 0.5
    if rng.random() < 0.4:
        opts["timeout"] = rng.randint(0, 30) * G + G / 2
    cancel_at = None
    if rng.random() < 0.25:
        cancel_at = (rng.randint(0, 20) * G + G / 4, rng.randint(0, 5))
    if all(p["dur"] is None for p in ps) and "timeout" not in opts:
        cancel_at = cancel_at or (G * 5.25, 0)
    case.trace(opts, cancel_at, *[tuple(p.values()) for p in ps])
    case.describe(awaitables=ps[:6], options=opts, cancel_at=cancel_at)
    does_cancel = opts.get("cancel", True)
    does_wait = opts.get("wait", True)
    timeout = opts.get("timeout")

    async def main():
        loop = asyncio.get_running_loop()
        t0 = loop.time()
        runs = [0] * n
        cancels = [0] * n
        ends = [None] * n
        values = []
        for i, p in enumerate(ps):
            values.append({
                "ok": Token(i), "none": None, "falsy": 0,
                "raise": Boom(i), "raise_falsy": FalsyBoom(i),
                "exc_value": Boom(("value", i)),
            }[p["end"]])

        def finish(i):
            if ps[i]["end"].startswith("raise"):
                raise values[i]
            return values[i]

        async def coro(i):
            runs[i] += 1
            p = ps[i]
            try:
                if p["dur"] is None:
                    await asyncio.sleep(10 ** 6)
                elif p["dur"]:
                    await asyncio.sleep(p["dur"])
                ends[i] = "end"
                return finish(i)
            except asyncio.CancelledError:
                cancels[i] += 1
                ends[i] = "cancelled"
                if p["cleanup"]:
                    await asyncio.sleep(p["cleanup"])
                ends[i] = "cleaned"
                if p["stubborn"]:
                    return Token("late")
                raise
        items = []
        for i, p in enumerate(ps):
            if p["form"] == "future":
                f = loop.create_future()

                def setter(i=i, f=f):
                    if not f.done():
                        ends[i] = "end"
                        if ps[i]["end"].startswith("raise"):
                            f.set_exception(values[i])
                        else:
                            f.set_result(values[i])
                if p["dur"] is not None:
                    loop.call_at(t0 + p["dur"], setter)
                items.append(f)
            elif p["form"] == "task":
                items.append(loop.create_task(coro(i)))
            else:
                items.append(coro(i))

        snapshot = []

        async def call():
            res = await aiomisc.select(*items, **opts)
            snapshot.append((res.done(), list(res)))
            return res
        task = loop.create_task(call())
        finished = []
        task.add_done_callback(lambda _: finished.append(loop.time()))
        cancelled = False
        if cancel_at:
            await asyncio.sleep(cancel_at[0])
            await steps(cancel_at[1])
            if not task.done():
                task.cancel()
                cancelled = True
                case.event("cancelled_calls")
        await asyncio.wait([task], timeout=10 ** 5)
        case.check(task.done(), "hang", "select never ended",
                   plan=case.sample)
        took = finished[0] - t0
        out = outcome_of(task)
        durs = [p["dur"] for p in ps if p["dur"] is not None]
        first = min(durs, default=None)
        winners = [i for i, p in enumerate(ps) if p["dur"] == first
                   and first is not None]
        expired = timeout is not None and (first is None or timeout < first)
        decided = timeout if expired else first
        late = max([0] + [
            p["cleanup"] for i, p in enumerate(ps)
            if p["form"] != "future" and (expired or i not in winners)
        ])
        if cancelled:
            case.check(out[0] == "cancelled", "cancel-lost", f"{out}",
                       plan=case.sample)
            case.check(took <= cancel_at[0] + 2 * max(
                [p["cleanup"] for p in ps]), "cancel-late", f"{took}",
                plan=case.sample)
            if decided is None or cancel_at[0] < decided:
                # the awaitables have been waited for
                for i, p in enumerate(ps):
                    if p["form"] == "future":
                        case.check(items[i].done(), "pending-alive",
                                   f"{i}", plan=case.sample)
                    elif runs[i]:
                        case.check(ends[i] in ("end", "cleaned"),
                                   "not-awaited", f"{i} {ends[i]}",
                                   plan=case.sample)
        else:
            lo, hi = decided, decided
            if does_cancel and does_wait:
                hi = decided + late
                if len(winners) == 1 or expired:
                    lo = hi
            case.check(lo <= took <= hi, "end-time",
                       f"{took} instead of {lo}..{hi}", plan=case.sample)
            if expired:
                if out[0] == "ok":
                    # (a stubborn one may still deliver meanwhile)
                    case.check(snapshot[0] == (False, [None] * n) or
                               any(p["stubborn"] for p in ps),
                               "timeout-result", f"{snapshot}",
                               plan=case.sample)
                elif not any(p["stubborn"] for p in ps):
                    case.check(out[0] == "exc" and
                               isinstance(out[1], asyncio.TimeoutError),
                               "timeout-result", f"{out}",
                               plan=case.sample)
                case.event("timeouts")
            else:
                judge(out, winners, values)
            if does_cancel and does_wait:
                for i, p in enumerate(ps):
                    if i in winners and not expired:
                        continue
                    item = items[i]
                    if p["form"] == "future":
                        case.check(item.cancelled(), "pending-alive",
                                   f"{i}", plan=case.sample)
                    elif runs[i]:
                        case.check(ends[i] == "cleaned", "pending-alive",
                                   f"{i} {ends[i]}", plan=case.sample)
        await asyncio.sleep(100)
        for i, p in enumerate(ps):
            case.check(runs[i] <= 1, "run-twice", f"{i}")
            if does_cancel or cancelled and does_cancel:
                if p["form"] == "future":
                    case.check(items[i].done(), "pending-alive", f"{i}",
                               plan=case.sample)
                elif runs[i]:
                    case.check(ends[i] in ("end", "cleaned") or
                               cancels[i] > 1 or cancelled,
                               "pending-alive", f"{i} {ends[i]}",
                               plan=case.sample)
                    case.check(ends[i] is not None, "pending-alive",
                               f"{i}", plan=case.sample)
            elif not cancelled and p["dur"] is not None:
                case.check(ends[i] == "end", "cancelled-others",
                           f"{i}: {ends[i]} though cancel=False",
                           plan=case.sample)
        left = [t for t in asyncio.all_tasks()
                if t is not asyncio.current_task()]
        if does_cancel:
            case.check(not left, "leaked-tasks", f"{left}",
                       plan=case.sample)
        for t in left:
            t.cancel()
        for i, p in enumerate(ps):
            if p["form"] == "coro" and not runs[i]:
                items[i].close()
            if p["form"] != "coro" and items[i].done() and \
                    not items[i].cancelled():
                items[i].exception()
        case.event("calls")

    def judge(out, winners, values):
        wins = [i for i in winners]
        if out[0] == "exc":
            case.check(not opts.get("return_exceptions", False),
                       "raised", f"{out}", plan=case.sample)
            case.check(any(out[1] is values[i] and
                           ps[i]["end"].startswith("raise") for i in wins),
                       "wrong-error", f"{out}", plan=case.sample)
            case.event("errors")
            return
        case.check(out[0] == "ok", "outcome", f"{out}", plan=case.sample)
        res = out[1]
        case.check(res.done(), "not-done", "", plan=case.sample)
        i = res.result_idx
        case.check(i in wins, "wrong-winner", f"{i} instead of {wins}",
                   plan=case.sample)
        case.check(res.value is values[i], "wrong-value", f"{res.value!r}",
                   plan=case.sample)
        case.check(len(res) == n and len(list(res)) == n, "length", "")
        case.check(values[i] in res, "contains", "")
        for j, v in enumerate(res):
            case.check(v is (values[i] if j == i else None), "list",
                       f"{list(res)}", plan=case.sample)
        raising = ps[i]["end"].startswith("raise")
        case.check(bool(res.is_exception) == raising, "is_exception", "")
        if raising:
            case.check(opts.get("return_exceptions", False),
                       "error-lost", f"{values[i]!r} was not raised",
                       plan=case.sample)
            try:
                res.result()
            except Boom as e:
                case.check(e is values[i], "wrong-error", repr(e))
            else:
                case.fail("error-lost", "result()")
        else:
            case.check(res.result() is values[i], "wrong-value", "")
    run_virtual(main)


QUICK_SCALE = 2
SCENARIOS = [Scenario(select, 25000)]
