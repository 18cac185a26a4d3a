"""Shared by the WorkerPool checks"""
import asyncio
import os
import random
from multiprocessing import ProcessError

from aiomisc import ThreadPoolExecutor, WorkerPool
from vf import wfuncs
from vf.util import eventually
from vf.vloop import run_real

FATAL = ("exit", "exit0", "os_exit", "interrupt", "kill", "term")


def alive(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            return f.read().rsplit(")", 1)[1].split()[0] != "Z"
    except OSError:
        return False


def run(case, main, kind="asyncio"):
    ex = ThreadPoolExecutor(4)
    try:
        return run_real(main, kind=kind, executor=ex)
    finally:
        ex.shutdown(wait=False)


def marks(path):
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                *words, pid = line.split()
                out.append((words[0], words[1] if words[1:] else None,
                            int(pid)))
    return out


def value(rng: random.Random, big):
    kind = rng.choice(["int", "str", "bytes", "nested", "none", "big"])
    if kind == "int":
        return rng.randint(-10 ** 30, 10 ** 30)
    if kind == "str":
        return "".join(rng.choices("aé☃\0\n ", k=rng.randint(0, 50)))
    if kind == "bytes":
        return rng.randbytes(rng.randint(0, 300))
    if kind == "nested":
        return {"a": [1, (2.5, None), {"x": b"y"}], 7: "z"}
    if kind == "none":
        return None
    return rng.randbytes(rng.choice([1000, 70000, big]))


def judge(case, path, i, kind, data, kwargs, outcome, pids=None):
    """The outcome of an undisturbed call"""
    name, v = outcome[0], outcome[1] if outcome[1:] else None
    where = dict(call=i, kind=kind, outcome=repr(outcome)[:200])
    if kind == "echo":
        case.check(name == "ok" and v[:3] == (i, data, kwargs),
                   "wrong-result", "", **where)
        if pids is not None:
            pids.add(v[3])
    elif kind == "raise":
        case.check(name == "exc" and v == wfuncs.WErr(i, data),
                   "wrong-error", "", **where)
    elif kind == "none":
        case.check(name == "ok" and v is None, "wrong-result", "", **where)
    elif kind == "big":
        case.check(name == "ok" and v == (i, bytes(data)), "wrong-result",
                   "", **where)
    elif kind == "bad_result":
        case.check(name == "exc" and isinstance(v, ValueError) and
                   v.args == ("explode",), "wrong-error", "", **where)
    elif kind in ("lambda", "bad_error", "local_error"):
        case.check(name == "exc" and not isinstance(v, ProcessError),
                   "wrong-error", "", **where)
    elif kind == "cancelled":
        case.check(name == "cancelled", "wrong-error", "", **where)
    elif kind in FATAL:
        case.check(name == "exc" and isinstance(v, ProcessError),
                   "wrong-error", "a dead worker is a ProcessError",
                   **where)


async def outcome(aw):
    try:
        return ("ok", await aw)
    except asyncio.CancelledError:
        return ("cancelled",)
    except Exception as e:
        return ("exc", e)


async def full_strength(case, pool, path, timeout=30):
    """All the workers of the pool work at once"""
    n = pool.workers
    # workers which died while idle are noticed by the next calls
    for _ in range(100):
        await eventually(lambda: len(pool.pids) >= n, 20)
        got = await asyncio.gather(*[
            outcome(pool.create_task(wfuncs.getpid)) for _ in range(3 * n)
        ])
        if all(g[0] == "ok" for g in got):
            break
    for attempt in range(10):
        p = f"{path}.r{attempt}"
        got = await asyncio.gather(*[
            outcome(pool.create_task(wfuncs.rendezvous, p, n, i, timeout))
            for i in range(n)
        ])
        if all(g[0] == "ok" for g in got):
            break
        # (a worker had died unnoticed)
        case.check(all(
            g[0] == "ok" or isinstance(g[1], ProcessError) for g in got
        ), "wrong-error", repr(got))
    else:
        case.soft("workers-lost", f"{got}")
    case.check_soft(all(g[1][0] for g in got), "workers-lost",
                    f"{n} workers do not work at once: {got}")
    case.check(len({g[1][1] for g in got}) == n, "workers-lost",
               f"{got}")
    case.event("full_strength")


async def gone(case, pids, what):
    ok = await eventually(lambda: not any(alive(p) for p in pids), 20)
    case.check_soft(ok, "process-leaked",
                    f"{what}: {[p for p in pids if alive(p)]} still run")


__all__ = ["WorkerPool"]
