import asyncio
import json
import os
import signal
import subprocess
import sys
import threading
import time

import aiomisc

from vf.core import Scenario, Inconclusive
from vf.util import policy

RULE = (
    "programs using the entrypoint in its three forms with random services, "
    "interrupted by a caught signal at a random moment or ending themselves "
    "(also at the same time), with stops shorter or longer than the shutdown "
    "timeout; in-process: entrypoints owning their loop left with random "
    "tasks, generators and threads running; distinct by plan and events"
)

TARGET = os.path.join(
    os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
    "vf", "ep_target.py",
)


def interrupts(case):
    rng = case.rng
    form = rng.choice(["run", "run", "forever", "own"])
    custom = rng.random() < 0.3
    sigs = [int(signal.SIGUSR1), int(signal.SIGINT)] if custom else []
    sig = rng.choice(sigs or [int(signal.SIGINT), int(signal.SIGTERM)])
    slow = rng.random() < 0.25
    timeout = rng.choice([0.4, 0.4, 1.5]) if slow else 20
    kind = rng.choice(["signal", "signal", "race", "normal"])
    if form == "forever":
        kind = "signal"
    if slow:
        kind = "signal"
    services = [
        [rng.choice([0, 0.02, 0.1]), rng.random() < 0.5]
        for _ in range(rng.randint(0 if not slow else 1, 3))
    ]
    if slow:
        services[0][0] = 30
    plan = {
        "form": form, "services": services, "timeout": timeout,
        "policy": rng.choice(["asyncio", "uvloop"]),
        "log": rng.random() < 0.4,
        "signals": sigs, "background": rng.choice([0, 1, 4]),
        "body": {"signal": 60, "race": 0.05, "normal": 0.02}[kind],
        "raise": rng.random() < 0.3,
    }
    delay = rng.random() * (0.15 if kind == "race" else 0.05)
    twice = kind == "signal" and rng.random() < 0.3
    plan["twice"] = [
        rng.choice(sigs or [int(signal.SIGINT), int(signal.SIGTERM)])
        for _ in range(rng.choice([2, 2, 3]))
    ] if twice else []
    plan["delay"] = delay
    case.trace(kind, form, sig, slow, json.dumps(plan))
    case.describe(plan=plan, kind=kind, sig=sig, delay=delay)
    proc = subprocess.Popen(
        [sys.executable, TARGET, json.dumps(plan)],
        stdout=subprocess.PIPE, stderr=subprocess.PIPE,
        env=dict(os.environ, PYTHONUNBUFFERED="1"),
    )
    case.defer(proc.kill)
    events = []
    ready = threading.Event()

    def reader():
        for line in proc.stdout:
            try:
                e = json.loads(line)
            except ValueError:
                continue
            events.append(e)
            if e[1] == "ready":
                ready.set()
    th = threading.Thread(target=reader, daemon=True)
    th.start()
    errs = []
    th2 = threading.Thread(
        target=lambda: errs.append(proc.stderr.read()), daemon=True)
    th2.start()
    if not ready.wait(60):
        proc.kill()
        th2.join(5)
        raise Inconclusive(f"the target never got ready {errs}")
    sent = None
    if kind != "normal":
        sent = time.monotonic()
        if not twice:
            time.sleep(delay)
            sent = time.monotonic()
            proc.send_signal(sig)
    try:
        rc = proc.wait(40)
    except subprocess.TimeoutExpired:
        proc.kill()
        case.soft("not-terminated", "the program did not end",
                  plan=plan, events=[e[1:] for e in events])
    ended = time.monotonic()
    th.join(10)
    th2.join(10)
    err = b"".join(errs).decode(errors="replace")[-600:]
    names = [e[1] for e in events]
    detail = dict(plan=plan, rc=rc, err=err,
                  events=[e[1:] for e in events][-12:])

    def count(kind, i):
        return sum(1 for e in events if e[1] == kind and e[2] == i)
    if slow:
        case.check(rc == 70, "timeout-exit-code", f"{rc}", **detail)
        case.check_soft(ended - sent < timeout + 3, "timeout-exit-late",
                        f"{ended - sent}", **detail)
        case.check(ended - sent >= timeout - 0.05, "timeout-exit-early",
                   f"{ended - sent}", **detail)
        for i in range(len(services)):
            case.check(count("stop", i) == 1, "stop-count", str(i),
                       **detail)
        case.event("forced_exits")
        return
    if kind == "race" and "unwound" in names and rc < 0:
        # the program was just leaving: the signal met a default handler
        case.trivial()
        return
    if kind == "race" and rc in (-2, 130, 1) and "KeyboardInterrupt" in err:
        case.trivial()
        return
    if kind == "race" and rc < 0:
        case.trivial()
        return
    case.check(rc != 70, "graceful-exit-code",
               "the shutdown did not time out", **detail)
    for i, (d, forever) in enumerate(services):
        case.check(count("stop", i) == 1, "stop-count",
                   f"service {i} stopped {count('stop', i)} times", **detail)
        case.check(count("stopped", i) == 1, "stop-interrupted",
                   f"service {i}", **detail)
        if forever:
            case.check(count("start_end", i) == 1, "start-not-cancelled",
                       f"service {i}", **detail)
    case.check(names.count("unwound") == 1, "not-unwound", "", **detail)
    case.check(["handlers", True] in [e[1:] for e in events],
               "handlers-not-restored", "", **detail)
    for i in range(plan["background"]):
        case.check(count("background_end", i) == 1, "task-not-cancelled",
                   f"background task {i}", **detail)
    case.check(names.count("body_end") == 1, "body-not-ended", "", **detail)
    if kind == "signal":
        for e in events:
            if e[1] == "stop":
                case.check("Interrupt signal received" in e[3],
                           "stop-exception", e[3], **detail)
        case.check_soft(ended - sent < 15, "exit-late", f"{ended - sent}",
                        **detail)
        case.check(rc == 0 if form == "forever" else rc != 0,
                   "exit-code", f"{rc}", **detail)
        case.event("graceful_exits")
    elif kind == "normal":
        case.check(rc == (3 if plan["raise"] else 0), "exit-code", f"{rc}",
                   **detail)
        case.check(("result" in names) == (not plan["raise"]), "result",
                   "", **detail)
        for e in events:
            if e[1] == "stop":
                want = "ValueError" if plan["raise"] and form == "own" \
                    else ("ValueError" if plan["raise"] else "None")
                case.check(want in e[3], "stop-exception", e[3], **detail)
        case.event("normal_exits")
    else:
        case.event("races")
        case.trace(*[tuple(e[1:3]) for e in events])


def owner(case):
    """Leaving an entrypoint owning its loop ends everything in it."""
    rng = case.rng
    kind = rng.choice(["asyncio", "uvloop"])
    ntasks = rng.choice([0, 1, 5, 20])
    ngens = rng.choice([0, 1, 4])
    nthreads = rng.choice([0, 1, 3])
    nested = rng.random() < 0.5
    stubborn = rng.choice([0, 0.01])
    body_raises = rng.random() < 0.4
    in_thread = rng.random() < 0.4
    use_run = rng.random() < 0.4
    # a failing stop() or receiver does not keep the rest from ending
    fails = rng.choice([None] * 4 + ["stop", "post_stop"])
    case.trace(kind, ntasks, ngens, nthreads, nested, body_raises, in_thread,
               use_run, stubborn, fails)
    case.describe(kind=kind, tasks=ntasks, gens=ngens, threads=nthreads,
                  in_thread=in_thread, use_run=use_run, fails=fails,
                  body_raises=body_raises)
    ended, closed, begun, ran, tasks = [], [], [], [], []
    stops, sources, contexts = [], [], []
    outcome = []

    class Svc(aiomisc.Service):
        async def start(self):
            if nested:
                self.start_event.set()
                await asyncio.sleep(3600)

        async def stop(self, exception=None):
            stops.append(exception)
            # tasks are still alive while services are being stopped
            case.expect(len(ended) == 0, "cancelled-early",
                        "tasks are cancelled before the services stopped")
            await asyncio.sleep(0.005)
            case.expect(len(ended) == 0, "cancelled-early", "")
            if fails == "stop":
                raise failure

    async def receiver(entrypoint, services):
        raise failure

    async def task(i):
        try:
            if i % 3 == 1:
                # a generator which waits when everything ends
                async for _ in source(i):
                    pass
            elif i % 3 == 0:
                await asyncio.gather(asyncio.sleep(3600),
                                     asyncio.sleep(3600))
            else:
                await asyncio.sleep(3600)
        finally:
            if stubborn:
                await asyncio.sleep(stubborn)
            ended.append(i)

    async def source(i):
        try:
            yield 1
            await asyncio.sleep(3600)
        finally:
            sources.append(i)

    async def gen(i):
        try:
            while True:
                yield i
        finally:
            await asyncio.sleep(0)
            closed.append(i)

    def func(i):
        begun.append(i)
        time.sleep(0.03)
        ran.append(i)

    gens = []
    boom = KeyError("body")
    failure = KeyError("stop")

    async def body():
        loop = asyncio.get_running_loop()
        loop.set_exception_handler(lambda _, ctx: contexts.append(ctx))
        for i in range(ntasks):
            tasks.append(loop.create_task(task(i)))
        for i in range(ngens):
            g = gen(i)
            gens.append(g)
            await g.__anext__()
        for i in range(nthreads):
            loop.run_in_executor(None, func, i).add_done_callback(
                lambda f: f.cancelled() or f.exception())
        await asyncio.sleep(rng.choice([0, 0.005]))
        if body_raises:
            raise boom
        return 42

    loops = []

    def program():
        kw = dict(log_config=False, policy=policy(kind), pool_size=4)
        try:
            if use_run and fails != "post_stop":
                r = aiomisc.run(body(), Svc(), **kw)
            else:
                ep = aiomisc.entrypoint(Svc(), **kw)
                if fails == "post_stop":
                    ep.post_stop.connect(receiver)
                with ep as loop:
                    loops.append(loop)
                    r = loop.run_until_complete(body())
            outcome.append(r)
        except BaseException as e:
            outcome.append(e)
        finally:
            asyncio.set_event_loop(None)

    if in_thread:
        t = threading.Thread(target=program)
        t.start()
        t.join(30)
        if t.is_alive():
            case.fail("hang", "the entrypoint is not left",
                      plan=case.sample)
    else:
        program()
    want = failure if fails else boom if body_raises else 42
    case.check(outcome == [want], "outcome", f"{outcome}", plan=case.sample)
    case.check(len(stops) == 1, "stop-count", f"{stops}", plan=case.sample)
    case.check(stops[0] is (boom if body_raises else None),
               "stop-exception", f"{stops}", plan=case.sample)
    case.check(sorted(ended) == list(range(ntasks)), "task-not-cancelled",
               f"{sorted(ended)}", plan=case.sample)
    for t in tasks:
        case.check(t.cancelled(), "task-not-cancelled", repr(t))
    case.check(sorted(closed) == list(range(ngens)), "generator-not-closed",
               f"{closed}", plan=case.sample)
    case.check(len(sources) == len([i for i in range(ntasks) if i % 3 == 1]),
               "generator-not-closed", f"{sources}", plan=case.sample)
    case.check(not contexts, "unhandled", repr(contexts[:1])[:400],
               plan=case.sample)
    case.check(sorted(ran) == sorted(begun), "thread-not-ended",
               f"{ran} of {begun}", plan=case.sample)
    for lp in loops:
        case.check(lp.is_closed(), "loop-not-closed", "")
    case.event("tasks", ntasks)
    case.event("exits")


def guest(case):
    """Leaving an entrypoint in a loop of somebody else ends its services and
    its context, and nothing else, even when a stop fails."""
    rng = case.rng
    kind = rng.choice(["asyncio", "uvloop"])
    rounds = rng.choice([1, 2, 3])
    plans = [
        [(rng.choice(["plain", "forever", "event"]),
          rng.choice([0, 0, 0.002]), rng.random() < 0.2)
         for _ in range(rng.choice([0, 1, 1, 3]))]
        for _ in range(rounds)
    ]
    bodies = [rng.choice(["ok", "ok", "raise"]) for _ in range(rounds)]
    case.trace(kind, bodies, *plans)
    case.describe(kind=kind, plans=plans, bodies=bodies)

    def make(plan, log):
        how, dur, fails = plan

        class Svc(aiomisc.Service):
            async def start(self):
                self.context["key"] = self
                if how == "plain":
                    return
                self.start_event.set()
                try:
                    await asyncio.sleep(3600 if how == "forever" else 0.001)
                finally:
                    log.append("start_end")

            async def stop(self, exception=None):
                await asyncio.sleep(dur)
                log.append("stop_end")
                if fails:
                    raise KeyError("stop")
        return Svc()

    async def main():
        loop = asyncio.get_running_loop()
        foreign = loop.create_task(asyncio.sleep(3600))
        event = threading.Event()
        thread = loop.run_in_executor(None, event.wait, 60)
        for plan, body in zip(plans, bodies):
            logs = [[] for _ in plan]
            svcs = [make(p, lg) for p, lg in zip(plan, logs)]
            out = None
            before = asyncio.all_tasks()
            try:
                async with aiomisc.entrypoint(
                    *svcs, log_config=False, catch_signals=(),
                ) as ep:
                    ctx = aiomisc.get_context()
                    ctx["other"] = 1
                    case.check(await ctx["other"] == 1, "context", "")
                    if body == "raise":
                        raise ValueError("body")
            except (KeyError, ValueError) as e:
                out = e.args[0]
            want = "stop" if any(p[2] for p in plan) else (
                "body" if body == "raise" else None)
            case.check(out == want, "outcome", repr(out), plan=case.sample)
            for p, lg in zip(plan, logs):
                case.check(
                    sorted(lg) == (["stop_end"] if p[0] == "plain" else
                                   ["start_end", "stop_end"]),
                    "not-ended", f"{p} {lg}", plan=case.sample)
            try:
                aiomisc.get_context()
            except KeyError:
                pass
            else:
                case.fail("context-left", f"after {out!r}",
                          plan=case.sample)
            case.check(not ep.services, "services-left", "")
            left = asyncio.all_tasks() - before
            case.check(not left, "leaked-tasks", f"{left}")
            case.check(not foreign.done() and not thread.done(),
                       "foreign-ended", "", plan=case.sample)
            case.event("exits")
        event.set()
        case.check(await thread, "foreign-thread", "")
        foreign.cancel()

    loop = policy(kind).new_event_loop()
    try:
        loop.run_until_complete(main())
        loop.run_until_complete(loop.shutdown_default_executor())
    finally:
        loop.close()


SCENARIOS = [
    Scenario(guest, 150),
    Scenario(owner, 300),
    Scenario(interrupts, 120, 1500, timeout=120),
]
