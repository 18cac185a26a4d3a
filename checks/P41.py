import asyncio
import gc
import logging
import multiprocessing
import os
import threading
from concurrent.futures.process import BrokenProcessPool

import aiomisc

from vf import wfuncs
from vf.core import Scenario
from vf.util import eventually_sync, outcome_of
from vf.vloop import run_real

RULE = (
    "random calls (results, failures, things which can not be pickled, dying "
    "processes) in process pools of random sizes submitted by one or two "
    "event loops, cancelled, shut down and dropped at random moments; every "
    "execution writes its begin and end to a log file; distinct by plan"
)

ERRORS = []


class Handler(logging.Handler):
    def emit(self, record):
        ERRORS.append(record.getMessage())


logging.getLogger("concurrent.futures").addHandler(Handler())


def alive(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            return f.read().rsplit(")", 1)[1].split()[0] != "Z"
    except OSError:
        return False


def read(path):
    """[(kind, token, pid)]"""
    try:
        with open(path) as f:
            return [tuple(line.split()) for line in f if
                    line.endswith("\n") and len(line.split()) == 3]
    except FileNotFoundError:
        return []


def children():
    return {p.pid for p in multiprocessing.active_children()}


def ended(case, before, path, plan):
    """No process of the pool is left."""
    pids = {int(p) for _, _, p in read(path)}

    def left():
        return [p for p in pids | (children() - before) if alive(p)]

    case.check_soft(eventually_sync(lambda: not left(), 20),
                    "process of the pool is left", plan=plan, left=left())


def verify(case, path, size, plan):
    """The log of executions: once, elsewhere, bounded."""
    running = top = 0
    begun = {}
    pids = set()
    for kind, token, pid in read(path):
        pids.add(pid)
        if kind == "begin":
            running += 1
            begun[token] = begun.get(token, 0) + 1
            top = max(top, running)
        elif kind == "end":
            running -= 1
    case.check(max(begun.values(), default=0) <= 1, "executed again",
               plan=plan, begun={k: v for k, v in begun.items() if v > 1})
    case.check(str(os.getpid()) not in pids,
               "executed in the program's own process", plan=plan)
    case.check(top <= size and len(pids) <= size, "more than max_workers",
               plan=plan, top=top, pids=len(pids))
    case.event("execution", len(begun))
    return begun


def judge(case, plan, kind, token, data, res, kwargs=None):
    """The outcome of a call which was not cancelled."""
    if kind == "echo":
        good = (res[0] == "ok" and isinstance(res[1], tuple) and
                res[1][:3] == (token, data, kwargs or {}) and
                res[1][3] != os.getpid())
    elif kind == "none":
        good = res == ("ok", None)
    elif kind == "big":
        good = res == ("ok", (token, bytes(data)))
    elif kind == "raise":
        good = res[0] == "exc" and res[1] == wfuncs.WErr(token, data)
    elif kind == "exit":
        good = (res[0] == "exc" and isinstance(res[1], SystemExit) and
                res[1].code == data)
    elif kind == "interrupt":
        good = res[0] == "exc" and isinstance(res[1], KeyboardInterrupt)
    else:   # can not be pickled
        good = (res[0] == "exc" and isinstance(res[1], Exception) and
                not isinstance(res[1], BrokenProcessPool))
    case.check(good, "wrong outcome", plan=plan, kind=kind, token=token,
               res=repr(res)[:200])


def pick(rng, i):
    kind = rng.choice(["echo", "echo", "echo", "none", "big", "raise",
                       "raise", "lambda", "local_error", "exit", "interrupt",
                       "bad_args"])
    data = {"big": rng.choice([0, 1, 70000, 300000]),
            "exit": rng.choice([0, 1, 3])}.get(kind, rng.randint(-3, 3))
    via = rng.choice(["submit", "executor"])
    return dict(kind=kind, data=data, sleep=rng.choice([0, 0, 0, .01, .05]),
                cancel=rng.choice([None] * 4 + [0, .01, .05]), via=via,
                kwargs={k: rng.randint(0, 9) for k in ("fn", "func", "loop")
                        if via == "submit" and rng.random() < 0.2},
                wait=rng.choice([0, 0, 0, .01, .05]), token=f"t{i}")


def send(loop, pool, path, call):
    data = call["data"]
    kind = call["kind"]
    if kind == "bad_args":
        data = lambda: 0    # noqa: E731
    args = (path, call["token"], kind, data, call["sleep"])
    if call["via"] == "submit":
        return asyncio.wrap_future(
            pool.submit(wfuncs.work, *args, **call.get("kwargs", {})),
            loop=loop)
    return loop.run_in_executor(pool, wfuncs.work, *args)


async def client(case, pool, path, calls, plan):
    """Makes the calls, returns {future: call}."""
    loop = asyncio.get_running_loop()
    futures = {}
    for call in calls:
        if call["wait"]:
            await asyncio.sleep(call["wait"])
        future = send(loop, pool, path, call)
        futures[future] = call
        if call["cancel"] == 0:
            future.cancel()
        elif call["cancel"]:
            loop.call_later(call["cancel"], future.cancel)
    if futures:
        done, pending = await asyncio.wait(futures, timeout=40)
        case.check_soft(not pending, "call never ends", plan=plan,
                        calls=[futures[p] for p in pending])
    return futures


def outcomes(case):
    rng = case.rng
    size = rng.randint(1, 4)
    kinds = [rng.choice(["asyncio", "uvloop"])
             for _ in range(rng.choice([1, 1, 2]))]
    calls = [[pick(rng, f"{k}x{i}") for i in range(rng.randint(1, 14))]
             for k in range(len(kinds))]
    plan = dict(size=size, kinds=kinds, calls=calls)
    case.describe(**plan)
    path = os.path.join(case.tmp(), "log")
    before = children()
    del ERRORS[:]
    results = {}
    pool = aiomisc.ProcessPoolExecutor(max_workers=size)

    def one(k):
        async def main():
            futures = await client(case, pool, path, calls[k], plan)
            results[k] = {c["token"]: (c, outcome_of(f))
                          for f, c in futures.items()}
        run_real(main, kind=kinds[k])

    threads = [threading.Thread(target=one, args=(k,), daemon=True)
               for k in range(1, len(kinds))]
    with pool:
        for thread in threads:
            thread.start()
        one(0)
        for thread in threads:
            thread.join()
    case.check(len(results) == len(kinds), "a loop has failed", plan=plan)
    begun = verify(case, path, size, plan)
    for k in results:
        for token, (call, res) in results[k].items():
            if call["cancel"] is not None and res[0] == "cancelled":
                case.event("cancelled call")
                continue
            judge(case, plan, call["kind"], token, call["data"], res,
                  call["kwargs"])
            case.check((token in begun) == (call["kind"] != "bad_args"),
                       "outcome without an execution", plan=plan, call=call)
            case.event("outcome")
    ended(case, before, path, plan)
    case.check(not ERRORS, "a callback of the pool fails", plan=plan,
               errors=ERRORS[:2])


def parallel(case):
    """max_workers calls run at once, one more does not."""
    rng = case.rng
    size = rng.randint(1, 4)
    rounds = rng.randint(1, 3)
    extra = rng.randint(0, 3)
    plan = dict(size=size, rounds=rounds, extra=extra)
    case.describe(**plan)
    tmp = case.tmp()
    before = children()
    log = os.path.join(tmp, "log")

    async def main():
        loop = asyncio.get_running_loop()
        with aiomisc.ProcessPoolExecutor(size) as pool:
            for n in range(rounds):
                path = os.path.join(tmp, f"r{n}")
                res = await asyncio.gather(*[
                    loop.run_in_executor(pool, wfuncs.rendezvous, path, size,
                                         f"c{i}", 20)
                    for i in range(size)
                ])
                case.check_soft(
                    all(ok for ok, _ in res) and
                    len({pid for _, pid in res}) == size,
                    "max_workers calls do not run at once", plan=plan,
                    res=res)
                await asyncio.gather(*[
                    loop.run_in_executor(pool, wfuncs.work, log, f"{n}x{i}",
                                         "echo", 0, .02)
                    for i in range(size + extra)
                ])
                case.event("rendezvous")

    run_real(main, kind=rng.choice(["asyncio", "uvloop"]))
    verify(case, log, size, plan)
    ended(case, before, log, plan)


def closing(case):
    rng = case.rng
    size = rng.randint(1, 3)
    calls = [dict(kind=rng.choice(["echo", "raise"]), data=i,
                  sleep=rng.choice([0, .02, .1]), cancel=None, wait=0,
                  via=rng.choice(["submit", "executor"]), token=f"t{i}")
             for i in range(rng.randint(0, 12))]
    how = rng.choice(["wait", "wait", "nowait", "cancel", "cancel_nowait",
                      "with", "drop", "drop"])
    when = rng.choice([0, 0, .01, .05, .2])
    again = rng.random() < 0.4
    plan = dict(size=size, how=how, when=when, again=again, calls=calls)
    case.describe(**plan)
    path = os.path.join(case.tmp(), "log")
    before = children()
    del ERRORS[:]

    async def main():
        loop = asyncio.get_running_loop()
        pool = aiomisc.ProcessPoolExecutor(size)
        box = [pool]
        futures = {send(loop, pool, path, call): call for call in calls}
        if when:
            await asyncio.sleep(when)
        if how == "drop":
            # whoever drops the last reference
            box.clear()
            del pool
            gc.collect()
        else:
            if how == "with":
                with pool:
                    pass
            else:
                await loop.run_in_executor(None, lambda: pool.shutdown(
                    wait="nowait" not in how, cancel_futures="cancel" in how))
            if how in ("wait", "with", "cancel"):
                rows = read(path)
                left = [p for p in {int(p) for *_, p in rows} if alive(p)]
                case.check(not left, "processes run after the shutdown",
                           plan=plan, left=left)
            size_now = len(read(path))
            for _ in range(2):
                try:
                    if rng.random() < .5:
                        pool.submit(wfuncs.work, path, "late", "echo", 0)
                    else:
                        loop.run_in_executor(pool, wfuncs.work, path, "late",
                                             "echo", 0)
                except RuntimeError:
                    case.event("late call refused")
                else:
                    case.fail("call accepted after the shutdown", plan=plan)
            if again:
                await loop.run_in_executor(None, pool.shutdown)
            if how in ("wait", "with", "cancel"):
                case.check(len(read(path)) == size_now,
                           "call runs after the shutdown", plan=plan)
        if futures:
            done, pending = await asyncio.wait(futures, timeout=40)
            case.check_soft(not pending, "call never ends", plan=plan,
                            calls=[futures[p] for p in pending])
        for future, call in futures.items():
            res = outcome_of(future)
            if "cancel" in how and res[0] == "cancelled":
                case.event("cancelled by the shutdown")
                continue
            judge(case, plan, call["kind"], call["token"], call["data"], res)
            case.event("outcome")

    run_real(main, kind=rng.choice(["asyncio", "uvloop"]))
    gc.collect()
    begun = verify(case, path, size, plan)
    case.check("late" not in begun, "refused call is executed", plan=plan)
    ended(case, before, path, plan)
    case.check(not ERRORS, "a callback of the pool fails", plan=plan,
               errors=ERRORS[:2])
    case.event(f"closed by {how}")


def dying(case):
    rng = case.rng
    size = rng.randint(1, 3)
    calls = [dict(kind=rng.choice(["echo", "raise"]), data=i,
                  sleep=rng.choice([0, .02, .1]), cancel=None,
                  via=rng.choice(["submit", "executor"]), token=f"t{i}",
                  wait=rng.choice([0, 0, .02]))
             for i in range(rng.randint(1, 8))]
    killer = dict(kind=rng.choice(["os_exit", "kill", "bad_result"]),
                  data=rng.choice([0, 1, 7]), sleep=rng.choice([0, .05]),
                  cancel=None, wait=0, via="executor", token="killer")
    calls.insert(rng.randint(0, len(calls)), killer)
    plan = dict(size=size, calls=calls)
    case.describe(**plan)
    path = os.path.join(case.tmp(), "log")
    before = children()
    del ERRORS[:]

    async def main():
        loop = asyncio.get_running_loop()
        pool = aiomisc.ProcessPoolExecutor(size)
        futures = {}
        try:
            for call in calls:
                if call["wait"]:
                    await asyncio.sleep(call["wait"])
                try:
                    futures[send(loop, pool, path, call)] = call
                except BrokenProcessPool:
                    case.event("broken pool refuses")
            if futures:
                done, pending = await asyncio.wait(futures, timeout=40)
                case.check_soft(not pending, "call never ends", plan=plan,
                                calls=[futures[p] for p in pending])
            for future, call in futures.items():
                res = outcome_of(future)
                broken = (res[0] == "exc" and
                          isinstance(res[1], BrokenProcessPool))
                if broken:
                    case.event("broken")
                    continue
                case.check(call is not killer, "wrong outcome", plan=plan,
                           call=call, res=repr(res)[:200])
                judge(case, plan, call["kind"], call["token"], call["data"],
                      res)
                case.event("outcome")
            # the last call is in, so the pool is known to be broken
            try:
                send(loop, pool, path, dict(killer, kind="echo", token="late"))
            except BrokenProcessPool:
                pass
            else:
                case.fail("broken pool accepts a call", plan=plan)
        finally:
            done = await asyncio.wait([
                loop.run_in_executor(None, pool.shutdown)], timeout=30)
        case.check_soft(not done[1], "shutdown of a broken pool hangs",
                        plan=plan)

    run_real(main, kind=rng.choice(["asyncio", "uvloop"]))
    verify(case, path, size + 1, plan)
    ended(case, before, path, plan)
    case.check(not ERRORS, "a callback of the pool fails", plan=plan,
               errors=ERRORS[:2])


def options(case):
    rng = case.rng
    method = rng.choice([None, "fork", "forkserver", "spawn"])
    size = rng.choice([None, 1, 2])
    args = [rng.randint(0, 9) for _ in range(rng.randint(0, 2))]
    init = rng.random() < 0.7
    count = rng.randint(1, 6)
    plan = dict(method=method, size=size, args=args, init=init, count=count)
    case.describe(**plan)
    path = os.path.join(case.tmp(), "log")
    before = children()

    async def main():
        loop = asyncio.get_running_loop()
        kw = {}
        if method:
            kw["mp_context"] = multiprocessing.get_context(method)
        if init:
            kw["initializer"] = wfuncs.initializer
            kw["initargs"] = (path, *args)
        if size:
            kw["max_workers"] = size
        limit = size or aiomisc.ProcessPoolExecutor.DEFAULT_MAX_WORKERS
        with aiomisc.ProcessPoolExecutor(**kw) as pool:
            res = await asyncio.gather(*[
                loop.run_in_executor(pool, wfuncs.process_info)
                for i in range(count)
            ])
        case.check(len({r["pid"] for r in res}) <= limit,
                   "more than max_workers", plan=plan, res=res)
        expected = ([((*args,), {})] if init else [])
        case.check(all(r["init"] == expected for r in res),
                   "initializer is not called once with its arguments",
                   plan=plan, res=res)
        if method:
            cls = {"fork": "ForkProcess", "spawn": "SpawnProcess",
                   "forkserver": "ForkServerProcess"}[method]
            case.check(all(r["cls"] == cls for r in res),
                       "another start method", plan=plan, res=res)
        case.event("process call", len(res))

    saved = list(wfuncs.INIT)
    del wfuncs.INIT[:]
    try:
        run_real(main, kind="asyncio")
    finally:
        wfuncs.INIT[:] = saved
    if method != "forkserver":
        ended(case, before, path, plan)


QUICK_SCALE = 3
SCENARIOS = [
    Scenario(outcomes, quick=60, timeout=120),
    Scenario(parallel, quick=15, timeout=120),
    Scenario(closing, quick=60, timeout=120),
    Scenario(dying, quick=30, timeout=120),
    Scenario(options, quick=20, timeout=120),
]
