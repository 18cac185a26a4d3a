"""The program run by the P32 check: argv[1] is a JSON plan."""
import asyncio
import json
import logging
import multiprocessing
import os
import signal
import sys
import threading
import time

import aiomisc
from aiomisc.service.process import ProcessService, RespawningProcessService

plan = json.loads(sys.argv[1])
LOG = os.open("events", os.O_WRONLY | os.O_APPEND | os.O_CREAT)
MAIN = os.getpid()
at_fork = {}


def say(svc, what, **kw):
    kw.update(t=time.monotonic(), pid=os.getpid(), svc=svc, what=what)
    os.write(LOG, (json.dumps(kw) + "\n").encode())


def events():
    with open("events") as f:
        return [json.loads(line) for line in f.read().splitlines()]


def after_in_child():
    todo = dict(at_fork)
    at_fork.clear()
    if todo:
        say(todo["svc"], "forked", n=todo["n"])
    if todo.get("delay"):
        time.sleep(todo["delay"])
    if todo.get("die"):
        say(todo["svc"], "dying", n=todo["n"], how="fork")
        os._exit(9)
    if todo:
        say(todo["svc"], "initialised", n=todo["n"])


os.register_at_fork(
    after_in_child=after_in_child, after_in_parent=at_fork.clear,
)


class Mixin:
    idx: int
    lives: list
    marker: str

    def get_process_kwargs(self):
        n = self.n = getattr(self, "n", -1) + 1
        life = self.lives[min(n, len(self.lives) - 1)]
        at_fork.update(svc=self.idx, n=n, delay=life.get("fork_delay", 0),
                       die=life["do"] == "fork")
        return dict(super().get_process_kwargs(), n=n, life=life,
                    marker=self.marker)

    async def start(self):
        say(self.idx, "start")
        await super().start()
        say(self.idx, "started")

    async def stop(self, exception=None):
        say(self.idx, "stop")
        try:
            await super().stop(exception)
        except Exception as e:
            say(self.idx, "stop_failed", error=repr(e))
            raise
        say(self.idx, "stopped")

    def in_process(self, n, life, marker):
        say(self.idx, "run", n=n, marker=marker, ppid=os.getppid(),
            level=logging.getLogger().getEffectiveLevel(),
            fmt=fmt(), name=multiprocessing.current_process().name)
        do = life["do"]
        if do in ("return", "raise", "exit", "kill", "sysexit"):
            time.sleep(life["d"])
            say(self.idx, "dying", n=n, how=do)
            if do == "raise":
                raise ValueError(do)
            if do == "sysexit":
                sys.exit(4)
            if do == "exit":
                os._exit(3)
            if do == "kill":
                os.kill(os.getpid(), signal.SIGKILL)
            return
        if do == "stubborn":
            signal.signal(
                signal.SIGINT, lambda *a: say(self.idx, "ignored", n=n),
            )
            say(self.idx, "ready", n=n)
            while True:
                time.sleep(0.05)
        if do == "thread":
            threading.Thread(target=time.sleep, args=(3600,)).start()
        say(self.idx, "ready", n=n)
        try:
            while True:
                time.sleep(0.02)
        except KeyboardInterrupt:
            say(self.idx, "interrupted", n=n)
            time.sleep(life["cleanup"])
            say(self.idx, "cleaned", n=n)
            if life.get("reraise"):
                raise


class Plain(Mixin, ProcessService):
    pass


class Respawn(Mixin, RespawningProcessService):
    pass


def fmt():
    h = logging.getLogger().handlers
    if not h:
        return None
    return type(h[0].formatter).__name__


def make(idx):
    cfg = plan["services"][idx]
    svc = (Respawn if cfg["respawn"] else Plain)(
        idx=idx, lives=cfg["lives"], marker=cfg["marker"], name=cfg["name"],
        process_stop_timeout=plan["stop_timeout"],
    )
    if cfg["respawn"]:
        svc.process_poll_timeout = plan["poll"]
    return svc


services = {}


def final(idx):
    """The service came to the last of its lives."""
    cfg = plan["services"][idx]
    evs = [e for e in events() if e["svc"] == idx]
    last = len(cfg["lives"]) - 1 if cfg["respawn"] else 0
    life = cfg["lives"][last]
    want = "ready" if life["do"] in ("forever", "thread", "stubborn") \
        else "dying"
    return any(e["what"] == want and e["n"] >= last for e in evs)


async def body(ep):
    t0 = time.monotonic()
    say(-1, "body", level=logging.getLogger().getEffectiveLevel(), fmt=fmt())
    tasks = []

    async def op(o):
        await asyncio.sleep(o["at"])
        idx = o["svc"]
        if o["op"] == "start":
            services[idx] = make(idx)
            await ep.start_services(services[idx])
        elif o["op"] == "stop":
            await ep.stop_services(services[idx])
            say(idx, "op_stopped")
        elif o["op"] == "cancel":
            services[idx] = make(idx)
            task = asyncio.ensure_future(ep.start_services(services[idx]))
            await asyncio.wait([task], timeout=o["after"])
            task.cancel()
            await asyncio.wait([task])
            say(idx, "cancelled", result=task.cancelled())
            await ep.stop_services(services[idx])
            say(idx, "op_stopped")

    for o in plan["ops"]:
        tasks.append(asyncio.ensure_future(op(o)))
    ticks = []

    async def ticker():
        while True:
            t = time.monotonic()
            await asyncio.sleep(0.01)
            ticks.append(time.monotonic() - t)

    tick = asyncio.ensure_future(ticker())
    if tasks:
        await asyncio.wait(tasks)
        for t in tasks:
            await t
    if plan["settle"]:
        touched = {o["svc"] for o in plan["ops"] if o["op"] != "start"}
        todo = [i for i in services if i not in touched]
        end = time.monotonic() + 25
        while not all(final(i) for i in todo):
            if time.monotonic() > end:
                say(-1, "unsettled", who=[i for i in todo if not final(i)])
                break
            await asyncio.sleep(0.02)
    else:
        await asyncio.sleep(max(0, plan["body"] - (time.monotonic() - t0)))
    tick.cancel()
    say(-1, "body_end", ticks=len(ticks), worst=max(ticks, default=0))
    if plan["end"] == "raise":
        raise RuntimeError("body")
    if plan["end"].startswith("SIG"):
        os.kill(os.getpid(), getattr(signal, plan["end"]))
        await asyncio.sleep(60)


def main():
    for idx, cfg in enumerate(plan["services"]):
        if not cfg["dynamic"]:
            services[idx] = make(idx)
    if plan["user_level"] is not None:
        logging.getLogger().setLevel(plan["user_level"])
    kw = dict(log_config=plan["log"], pool_size=plan["pool"])
    if plan["log"]:
        kw.update(log_level=plan["level"], log_format=plan["format"])
    if plan["end"] == "SIGTERM":
        kw["catch_signals"] = (signal.SIGTERM, signal.SIGINT)
    try:
        ep = aiomisc.entrypoint(*services.values(), **kw)
        with ep as loop:
            loop.run_until_complete(body(ep))
    except RuntimeError as e:
        say(-1, "error", error=repr(e))
    except (KeyboardInterrupt, asyncio.CancelledError) as e:
        say(-1, "interrupted", error=repr(e))
    say(-1, "closed")
    end = time.monotonic() + 8
    while multiprocessing.active_children() and time.monotonic() < end:
        time.sleep(0.01)
    say(-1, "children",
        alive=[p.pid for p in multiprocessing.active_children()])
    for p in multiprocessing.active_children():
        p.kill()


if __name__ == "__main__":
    main()
