import asyncio
import concurrent.futures
import uuid

import aiomisc
from aiomisc.utils import fast_uuid1

from vf.core import Scenario
from vf.util import VAR, Boom, Token, outcome_of
from vf.vloop import run_virtual, steps

RULE = (
    "cancel_tasks over random sets of tasks and futures in all states with "
    "random cleanups; shielded calls cancelled at random times; awaitable "
    "around functions returning anything; chunks of random sequences; "
    "distinct by plan"
)
G = 1 / 8


def cancelling(case):
    rng = case.rng
    n = rng.choice([0, 1, 2, 5, 20])
    ps = [{
        "kind": rng.choice(["run", "run", "done", "failed", "cancelled",
                            "future", "done_future", "shielded",
                            "stubborn", "fails_on_cancel", "fresh",
                            "refuses", "other"]),
        "cleanup": rng.choice([0, 0, 1, 4]) * G,
    } for _ in range(n)]
    coll = rng.choice(["list", "set", "generator", "tuple"])
    if coll == "set":
        for p in ps:
            if p["kind"] == "other":
                p["kind"] = "run"
    awaited = rng.random() < 0.8
    case.trace(coll, awaited, *[tuple(p.values()) for p in ps])
    case.describe(tasks=ps, collection=coll)

    async def main():
        loop = asyncio.get_running_loop()
        ended = {}
        hits = [0] * n
        inner = []

        async def body(i):
            p = ps[i]
            try:
                if p["kind"] == "done":
                    return i
                if p["kind"] == "failed":
                    raise Boom(i)
                if p["kind"] == "shielded":
                    f = asyncio.ensure_future(asyncio.sleep(3 * G))
                    inner.append(f)
                    await asyncio.shield(f)
                await asyncio.sleep(10 ** 6)
            except asyncio.CancelledError:
                hits[i] += 1
                if p["cleanup"]:
                    await asyncio.sleep(p["cleanup"])
                if p["kind"] == "stubborn":
                    return Token(i)
                if p["kind"] == "fails_on_cancel":
                    raise Boom(i)
                if p["kind"] == "refuses":
                    await asyncio.sleep(2 * G)
                    return i
                raise
            finally:
                ended[i] = loop.time()
        objs = []
        for i, p in enumerate(ps):
            if p["kind"] in ("future", "done_future"):
                f = loop.create_future()
                if p["kind"] == "done_future":
                    f.set_result(i)
                objs.append(f)
            elif p["kind"] == "other":
                objs.append(concurrent.futures.Future())
            else:
                t = loop.create_task(body(i))
                if p["kind"] == "cancelled":
                    t.cancel()
                objs.append(t)
        fresh = [i for i, p in enumerate(ps) if p["kind"] == "fresh"]
        await asyncio.sleep(G)
        for i in fresh:
            objs[i].cancel()
            await asyncio.wait([objs[i]])
        for i in fresh:
            # not a single step has been made yet
            objs[i] = loop.create_task(body(i))
            hits[i] = 0
            ended.pop(i, None)
        before = {
            i: outcome_of(o) for i, o in enumerate(objs)
            if asyncio.isfuture(o) and o.done()
        }
        t0 = loop.time()
        arg = {"list": list, "tuple": tuple, "set": set,
               "generator": iter}[coll](objs)
        waiter = aiomisc.cancel_tasks(arg)
        case.check(hasattr(waiter, "__await__"), "not-awaitable", "")
        tasks = [i for i, o in enumerate(objs)
                 if isinstance(o, asyncio.Task) and i not in before]

        def extra(i):
            p = ps[i]
            if p["kind"] == "fresh":
                return 0
            return p["cleanup"] + (2 * G if p["kind"] == "refuses" else 0)
        want = t0 + max([extra(i) for i in tasks] + [0])
        if awaited:
            await waiter
            case.check(loop.time() == want, "wait-time",
                       f"waited {loop.time() - t0} instead of {want - t0}",
                       plan=case.sample)
        else:
            await asyncio.sleep(20 * G)
        for i, o in enumerate(objs):
            p = ps[i]
            if not asyncio.isfuture(o):
                continue
            case.check(o.done(), "not-cancelled", f"{i} {p}",
                       plan=case.sample)
            if i in before:
                case.check(outcome_of(o) == before[i], "changed",
                           f"{i} was already done", plan=case.sample)
                continue
            case.check(hits[i] == (0 if p["kind"] in ("fresh", "future")
                                   else 1),
                       "cancel-count", f"{i}: {hits[i]}", plan=case.sample)
            if p["kind"] == "future":
                try:
                    o.result()
                except asyncio.CancelledError:
                    pass
                else:
                    case.fail("future-not-cancelled", "")
            elif p["kind"] in ("run", "shielded", "fresh"):
                case.check(o.cancelled(), "not-cancelled", f"{i}",
                           plan=case.sample)
            else:
                try:
                    o.result()
                except (Boom, asyncio.CancelledError):
                    pass
        for f in inner:
            case.check(not f.cancelled(), "shield-broken", "")
        case.event("cancelled_tasks", len(tasks))
        await asyncio.sleep(5)
        left = asyncio.all_tasks() - {asyncio.current_task()}
        case.check(not left, "leaked-tasks", f"{left}")
    run_virtual(main)


def shielding(case):
    rng = case.rng
    n = rng.choice([1, 2, 5, 10])
    ps = [(rng.randint(0, 10) * G, rng.randint(0, 9) * G,
           rng.choice(["ok", "none", "raise"]),
           rng.choice([None, 0.5, 1.5, 3.5, 7.5]), rng.randint(0, 4))
          for _ in range(n)]
    case.trace(*ps)
    case.describe(calls=ps)

    async def main():
        loop = asyncio.get_running_loop()
        runs = [0] * n
        ends = [0] * n
        values = [Token(i) if p[2] == "ok" else
                  Boom(i) if p[2] == "raise" else None
                  for i, p in enumerate(ps)]

        @aiomisc.shield
        async def func(i, *, kw):
            """doc"""
            case.expect(kw == i, "arguments", "")
            runs[i] += 1
            if ps[i][1]:
                await asyncio.sleep(ps[i][1])
            ends[i] += 1
            if ps[i][2] == "raise":
                raise values[i]
            return values[i]
        case.check(func.__name__ == "func" and func.__doc__ == "doc",
                   "name", "")

        async def call(i):
            return await func(i, kw=i)

        async def one(i):
            start, dur, kind, cancel, k = ps[i]
            await asyncio.sleep(start)
            t0 = loop.time()
            task = loop.create_task(call(i))
            done = []
            task.add_done_callback(lambda _: done.append(loop.time()))
            cancelled = False
            if cancel is not None:
                await asyncio.sleep(cancel * G)
                await steps(k)
                if not task.done() and runs[i]:
                    cancelled = True
                    task.cancel()
                    await steps(5)
                    case.check(task.cancelled(), "cancel-lost", "",
                               plan=case.sample)
                    case.event("cancelled_callers")
            await asyncio.wait([task])
            out = outcome_of(task)
            if not cancelled:
                case.check(done[0] == t0 + dur, "time", "")
                want = "exc" if kind == "raise" else "ok"
                case.check(out[0] == want and out[1] is values[i],
                           "outcome", f"{out}", plan=case.sample)
            await asyncio.sleep(dur + 1)
            case.check(runs[i] == ends[i] == 1, "interrupted",
                       f"{runs[i]} {ends[i]}", plan=case.sample)
        await asyncio.gather(*[one(i) for i in range(n)])
        case.event("calls", n)
    run_virtual(main)


class Custom:
    def __await__(self):
        return iter(())


def awaitables(case):
    rng = case.rng
    kinds = [rng.choice(["value", "none", "coro", "future", "task", "custom",
                         "raise", "corofunc", "exception", "list",
                         "coroutine_raise"]) for _ in range(12)]
    case.trace(*kinds)

    async def main():
        loop = asyncio.get_running_loop()

        async def c(v):
            await asyncio.sleep(0)
            return v

        async def cr():
            raise Boom("coro")
        for i, kind in enumerate(kinds):
            token = Token(i)
            calls = []
            made = {
                "value": lambda: token, "none": lambda: None,
                "coro": lambda: c(token), "list": lambda: [token],
                "custom": Custom, "exception": lambda: Boom(i),
                "task": lambda: loop.create_task(c(token)),
                "coroutine_raise": cr,
            }
            objs = []

            def func(*args, **kwargs):
                """doc"""
                calls.append((args, kwargs, VAR.get()))
                if kind == "raise":
                    raise Boom(i)
                if kind == "future":
                    f = loop.create_future()
                    loop.call_soon(f.set_result, token)
                    objs.append(f)
                else:
                    objs.append(made[kind]())
                return objs[0]

            async def corofunc(*args, **kwargs):
                calls.append((args, kwargs, VAR.get()))
                return token
            VAR.set(i)
            target = corofunc if kind == "corofunc" else func
            f = aiomisc.awaitable(target)
            case.check(f.__name__ == target.__name__, "name", "")
            try:
                aw = f(1, 2, a=3)
                if kind in ("coro", "future", "task", "custom"):
                    case.check(aw is objs[0], "not-the-original", kind)
                case.check(hasattr(aw, "__await__"), "not-awaitable", kind)
                got = await aw
            except Boom as e:
                case.check(kind in ("raise", "coroutine_raise"),
                           "raised", repr(e))
            else:
                want = {"none": None, "custom": None}.get(kind, token)
                if kind in ("exception", "list"):
                    want = objs[0]
                case.check(kind not in ("raise", "coroutine_raise"),
                           "error-lost", kind)
                case.check(got is want, "value", f"{kind}: {got!r}")
            case.check(calls == [((1, 2), {"a": 3}, i)], "calls", f"{calls}")
            case.event("calls")
    run_virtual(main)


def chunks(case):
    rng = case.rng
    for _ in range(20):
        n = rng.randint(0, 50)
        size = rng.randint(1, 12)
        data = [rng.choice([None, 0, "", Token(i), i]) for i in range(n)]
        case.trace(n, size)
        src = rng.choice([list, tuple, iter])(data)
        taken = []

        def gen():
            for x in data:
                taken.append(x)
                yield x
        if rng.random() < 0.4:
            src = gen()
        got = []
        for chunk in aiomisc.chunk_list(src, size):
            case.check(isinstance(chunk, list), "chunk-type", "")
            got.append(list(chunk))
            case.check(len(taken) <= len(got) * size, "lookahead",
                       f"{len(taken)}")
        flat = [x for c in got for x in c]
        case.check(len(flat) == n and
                   all(a is b for a, b in zip(flat, data)), "lost-items",
                   f"{flat} {data}")
        case.check(all(len(c) == size for c in got[:-1]), "chunk-size", "")
        case.check(all(1 <= len(c) <= size for c in got), "chunk-size", "")
        case.event("chunks", len(got))


def uuids(case):
    n = 3000
    case.trace(case.rng.random())
    seen = set()
    for make, version in ((fast_uuid1, 1), (aiomisc.utils.fast_uuid4, 4)):
        for _ in range(n):
            u = make()
            case.check(isinstance(u, uuid.UUID) and u.version == version and
                       u.variant == uuid.RFC_4122, "uuid", f"{u}")
            seen.add(u)
        if version == 1:
            case.check(u.node == uuid.getnode(), "node", f"{u}")
    case.check(len(seen) == 2 * n, "duplicate-uuid", "")
    case.event("uuids", 2 * n)


QUICK_SCALE = 3
SCENARIOS = [
    Scenario(cancelling, 6000),
    Scenario(shielding, 3000),
    Scenario(awaitables, 1500),
    Scenario(chunks, 800),
    Scenario(uuids, 10),
]
